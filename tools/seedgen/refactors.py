"""Edits that keep the behaviour; every check has to stay quiet on them. Same edit format as seeds.py."""
NO = 'state/orderbook.rs'
EQ = 'state/event_queue.rs'
CB = 'state/critbit.rs'
R = []


def ref(id, *edits, base='program/src/'):
    R.append(dict(id=id, edits=list(edits), base=base))


# ------------------------------------------------------------------ new_order
HELPQ = '''
fn quote_amount(side: Side, base: u64, price: u64) -> Option<u64> {
    match side {
        Side::Bid => fp32_mul_ceil(base, price),
        Side::Ask => fp32_mul_floor(base, price),
    }
}

impl<'a, C: CallbackInfo> OrderBookState<'a, C>
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
'''
IMPL = '''
impl<'a, C: CallbackInfo> OrderBookState<'a, C>
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
'''
ref('no-quote-helper',
    (NO, IMPL, HELPQ),
    (NO, '''            let quote_maker_qty = match side {
                Side::Bid => fp32_mul_ceil(base_trade_qty, trade_price),
                Side::Ask => fp32_mul_floor(base_trade_qty, trade_price),
            }
            .map(''', '''            let quote_maker_qty = quote_amount(side, base_trade_qty, trade_price)
            .map('''),
    (NO, '''        quote_qty_remaining -= match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        }
        .ok_or(AoError::NumericalOverflow)?;''', '''        quote_qty_remaining -= quote_amount(side, base_qty_to_post, limit_price)
            .ok_or(AoError::NumericalOverflow)?;'''))
ref('no-no-cap-min',
    (NO, '''            .map(|q| std::cmp::min(q, quote_qty_remaining))
            .ok_or''', '''            .ok_or'''))
ref('no-if-min',
    (NO, '''            .map(|q| std::cmp::min(q, quote_qty_remaining))
            .ok_or(AoError::NumericalOverflow)?;''', '''            .ok_or(AoError::NumericalOverflow)?;
            let quote_maker_qty = if quote_maker_qty > quote_qty_remaining {
                quote_qty_remaining
            } else {
                quote_maker_qty
            };'''),
    (NO, '''        let base_qty_to_post = std::cmp::min(
            fp32_div(quote_qty_remaining, limit_price).unwrap_or(u64::MAX),
            base_qty_remaining,
        );
''', '''        let base_qty_to_post = match fp32_div(quote_qty_remaining, limit_price) {
            Some(affordable) if affordable < base_qty_remaining => affordable,
            _ => base_qty_remaining,
        };
'''))
OUTH = '''
fn out_event(side: Side, order_id: u128, base_size: u64) -> OutEvent {
    OutEvent {
        side: side as u8,
        #[cfg(target_os = "solana")]
        order_id,
        #[cfg(not(target_os = "solana"))]
        order_id: [order_id as u64, (order_id >> 64) as u64],
        base_size,
        tag: EventTag::Out as u8,
        _padding: [0; 14],
    }
}
''' + IMPL
ref('no-out-helper',
    (NO, IMPL, OUTH),
    (NO, '''                    #[cfg(target_os = "solana")]
                    let order_id = best_offer_id;
                    #[cfg(not(target_os = "solana"))]
                    let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                    let provide_out = OutEvent {
                        side: side.opposite() as u8,
                        order_id,
                        base_size: best_bo_ref.base_quantity,
                        tag: EventTag::Out as u8,
                        _padding: [0; 14],
                    };
''', '''                    let provide_out =
                        out_event(side.opposite(), best_offer_id, best_bo_ref.base_quantity);
'''),
    (NO, '''                #[cfg(target_os = "solana")]
                let order_id = best_offer_id;
                #[cfg(not(target_os = "solana"))]
                let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                let out_event = OutEvent {
                    side: cur_side as u8,
                    order_id,
                    base_size: best_bo_ref.base_quantity,
                    tag: EventTag::Out as u8,
                    _padding: [0; 14],
                };
''', '''                let out_event = out_event(cur_side, best_offer_id, best_bo_ref.base_quantity);
'''),
    (NO, '''                #[allow(clippy::let_and_return)]
                let out = OutEvent {
                    side: side as u8,
                    order_id: {
                        let o = order.order_id();
                        #[cfg(not(target_os = "solana"))]
                        let o = [o as u64, (o >> 64) as u64];
                        o
                    },
                    base_size: order.base_quantity,
                    tag: EventTag::Out as u8,
                    _padding: [0; 14],
                };
''', '''                let out = out_event(side, order.order_id(), order.base_quantity);
'''))
ref('no-while',
    (NO, '''        loop {
            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''        while match_limit > 0 {
            let best_bo_h'''))
ref('no-let-else',
    (NO, '''            let best_bo_h = match self.find_bbo(side.opposite()) {
                None => {
                    crossed = false;
                    break;
                }
                Some(h) => h,
            };
''', '''            let Some(best_bo_h) = self.find_bbo(side.opposite()) else {
                crossed = false;
                break;
            };
'''))
ref('no-while-let',
    (NO, '''            let best_bo_h = match self.find_bbo(side.opposite()) {
                None => {
                    crossed = false;
                    break;
                }
                Some(h) => h,
            };
''', '''            let maybe = self.find_bbo(side.opposite());
            crossed = maybe.is_some();
            if !crossed {
                break;
            }
            let best_bo_h = maybe.unwrap();
'''))
ref('no-crosses-helper',
    (NO, IMPL, '''
/// whether an order of the given side and limit may trade at a price
fn reaches(side: Side, limit: u64, price: u64) -> bool {
    if side == Side::Bid {
        price <= limit
    } else {
        price >= limit
    }
}
''' + IMPL),
    (NO, '''            crossed = match side {
                Side::Bid => limit_price >= trade_price,
                Side::Ask => limit_price <= trade_price,
            };
''', '''            crossed = reaches(side, limit_price, trade_price);
'''))
ref('no-reorder-updates',
    (NO, '''            best_bo_ref.base_quantity -= base_trade_qty;
            base_qty_remaining -= base_trade_qty;
            quote_qty_remaining -= quote_maker_qty;
''', '''            quote_qty_remaining -= quote_maker_qty;
            base_qty_remaining -= base_trade_qty;
            match_limit -= 1;
            best_bo_ref.base_quantity -= base_trade_qty;
'''),
    (NO, '''                    .map_err(|_| AoError::EventQueueFull)?;
            }

            match_limit -= 1;
        }
''', '''                    .map_err(|_| AoError::EventQueueFull)?;
            }
        }
'''))
ref('no-update-before-push',
    (NO, '''            event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .map_err(|_| AoError::EventQueueFull)?;

            best_bo_ref.base_quantity -= base_trade_qty;
''', '''            best_bo_ref.base_quantity -= base_trade_qty;
            event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .map_err(|_| AoError::EventQueueFull)?;

'''))
ref('no-summary-closure',
    (NO, '''        if crossed || !post_allowed || base_qty_to_post < min_base_order_size {
            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: max_base_qty - base_qty_remaining,
                total_quote_qty: max_quote_qty - quote_qty_remaining,
                total_base_qty_posted: 0,
            });
        }
''', '''        let taken = OrderSummary {
            posted_order_id: None,
            total_base_qty: max_base_qty - base_qty_remaining,
            total_quote_qty: max_quote_qty - quote_qty_remaining,
            total_base_qty_posted: 0,
        };
        let worth_posting = base_qty_to_post >= min_base_order_size;
        if !(post_allowed && !crossed && worth_posting) {
            return Ok(taken);
        }
'''),
    (NO, '''            } else {
                return Ok(OrderSummary {
                    posted_order_id: None,
                    total_base_qty: max_base_qty - base_qty_remaining,
                    total_quote_qty: max_quote_qty - quote_qty_remaining,
                    total_base_qty_posted: 0,
                });
            }''', '''            } else {
                return Ok(taken);
            }'''))
ref('no-checked-sub',
    (NO, '''            base_qty_remaining -= base_trade_qty;
            quote_qty_remaining -= quote_maker_qty;
''', '''            base_qty_remaining = base_qty_remaining.checked_sub(base_trade_qty).unwrap();
            quote_qty_remaining = quote_qty_remaining.saturating_sub(quote_maker_qty);
'''))
ref('no-policy-match',
    (NO, '''            if self_trade_behavior != SelfTradeBehavior::DecrementTake {
                let order_would_self_trade = callback_info.as_callback_id()
                    == opposite_slab.callback_infos[best_bo_h as usize].as_callback_id();
                if order_would_self_trade {
                    let best_offer_id = best_bo_ref.order_id();

                    if self_trade_behavior == SelfTradeBehavior::AbortTransaction {
                        return Err(AoError::WouldSelfTrade);
                    }
                    assert!(self_trade_behavior == SelfTradeBehavior::CancelProvide);
''', '''            let maker_id = opposite_slab.callback_infos[best_bo_h as usize].as_callback_id();
            let own_order = callback_info.as_callback_id() == maker_id;
            match (own_order, &self_trade_behavior) {
                (false, _) | (true, SelfTradeBehavior::DecrementTake) => (),
                (true, SelfTradeBehavior::AbortTransaction) => {
                    return Err(AoError::WouldSelfTrade);
                }
                (true, SelfTradeBehavior::CancelProvide) => {
                    let best_offer_id = best_bo_ref.order_id();
'''))
ref('no-for-range',
    (NO, '            mut match_limit,\n', '            match_limit,\n'),
    (NO, '''        loop {
            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''        for _ in 0..match_limit {
            let best_bo_h'''),
    (NO, '''                    match_limit -= 1;

                    continue;''', '''                    continue;'''),
    (NO, '''            }

            match_limit -= 1;
        }
''', '''            }
        }
'''))
ref('no-count-up',
    (NO, '            mut match_limit,\n', '            match_limit,\n'),
    (NO, '''        let mut crossed = true;
        loop {
            if match_limit == 0 {''', '''        let mut crossed = true;
        let mut matched = 0u64;
        loop {
            if matched == match_limit {'''),
    (NO, 'match_limit -= 1;', 'matched += 1;', 'all'))
ref('no-traded-counters',
    (NO, '''        let mut base_qty_remaining = max_base_qty;
        let mut quote_qty_remaining = max_quote_qty;
''', '''        let mut base_traded = 0u64;
        let mut quote_traded = 0u64;
'''),
    (NO, '''            let offer_size''', '''            let base_qty_remaining = max_base_qty - base_traded;
            let quote_qty_remaining = max_quote_qty - quote_traded;
            let offer_size'''),
    (NO, '''            base_qty_remaining -= base_trade_qty;
            quote_qty_remaining -= quote_maker_qty;
''', '''            base_traded += base_trade_qty;
            quote_traded += quote_maker_qty;
'''),
    (NO, '''        let base_qty_to_post = std''', '''        let mut base_qty_remaining = max_base_qty - base_traded;
        let mut quote_qty_remaining = max_quote_qty - quote_traded;
        let base_qty_to_post = std'''))
ref('no-inline-bbo',
    (NO, 'match self.find_bbo(side.opposite()) {', '''match match side {
                Side::Bid => self.asks.find_min(),
                Side::Ask => self.bids.find_max(),
            } {'''))
ref('no-opposite-var',
    (NO, '''        // New bid
''', '''        let other = side.opposite();
'''),
    (NO, 'self.find_bbo(side.opposite())', 'self.find_bbo(other)'),
    (NO, 'let opposite_slab = self.get_tree(side.opposite());', 'let opposite_slab = self.get_tree(other);'),
    (NO, 'side: side.opposite() as u8,', 'side: other as u8,'),
    (NO, 'self.get_tree(side.opposite())\n', 'self.get_tree(other)\n'),
    (NO, 'let cur_side = side.opposite();', 'let cur_side = other;'))
ref('no-post-method',
    (NO, '''        let new_leaf_order_id = event_queue.gen_order_id(limit_price, side);
''', '''        let order_id = event_queue.gen_order_id(limit_price, side);
        let new_leaf_order_id = order_id;
'''),
    (NO, '''        *self.get_tree(side).get_callback_info_mut(k) = callback_info;
''', '''        self.store_callback(side, k, callback_info);
'''),
    (NO, IMPL, IMPL + '''    fn store_callback(&mut self, side: Side, handle: u32, info: C) {
        let slab = self.get_tree(side);
        slab.callback_infos[handle as usize] = info;
    }

'''))
ref('no-fill-method',
    (NO, IMPL, IMPL + '''    fn tradeable(offer: u64, base: u64, quote: u64, price: u64) -> u64 {
        let mut size = offer;
        if base < size {
            size = base;
        }
        if let Some(affordable) = fp32_div(quote, price) {
            size = size.min(affordable);
        }
        size
    }

'''),
    (NO, '''            let base_trade_qty = offer_size
                .min(base_qty_remaining)
                .min(fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX));
''', '''            let base_trade_qty = Self::tradeable(
                offer_size,
                base_qty_remaining,
                quote_qty_remaining,
                trade_price,
            );
'''))
ref('no-evict-match',
    (NO, '''        let k = if let Err(AoError::SlabOutOfSpace) = insert_result {''',
     '''        let k = if matches!(insert_result, Err(AoError::SlabOutOfSpace)) {'''))
ref('no-evict-early',
    (NO, '''            let should_boot = match side {
                Side::Bid => boot_candidate_price < limit_price,
                Side::Ask => boot_candidate_price > limit_price,
            };
            if should_boot {
''', '''            let keep_resting = match side {
                Side::Bid => boot_candidate_price >= limit_price,
                Side::Ask => boot_candidate_price <= limit_price,
            };
            if !keep_resting {
'''))
ref('no-zero-checks-merged',
    (NO, '''            if base_trade_qty == 0 {
                break;
            }

''', ''),
    (NO, '            if quote_maker_qty == 0 {', '            if base_trade_qty == 0 || quote_maker_qty == 0 {'))
ref('no-noop',
    (NO, '''        let mut base_qty_remaining = max_base_qty;
''', '''        let _unused = max_quote_qty ^ limit_price;
        let mut base_qty_remaining = max_base_qty;
'''))
ref('no-debug-msg',
    (NO, '''            best_bo_ref.base_quantity -= base_trade_qty;
''', '''            msg!("Matched {} at {}", base_trade_qty, trade_price);
            debug_assert!(base_trade_qty <= best_bo_ref.base_quantity);
            best_bo_ref.base_quantity -= base_trade_qty;
'''))
ref('no-first-flag',
    (NO, '''        let mut crossed = true;
        loop {''', '''        let mut crossed = true;
        let mut first = true;
        loop {
            if first {
                msg!("Matching");
            }
            first = false;'''))
# ------------------------------------------------------------------ event queue
ref('eq-wrap-if',
    (EQ, '''        let event_idx =
            (self.header.head as usize + self.header.count as usize) % self.events.len();
        self.events[event_idx] = *generic_event;
''', '''        let mut event_idx = self.header.head as usize + self.header.count as usize;
        if event_idx >= self.events.len() {
            event_idx -= self.events.len();
        }
        self.events[event_idx] = *generic_event;
'''))
ref('eq-pop-wrap-if',
    (EQ, '''        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''        let mut head = self.header.head + capped_number_of_entries_to_pop;
        let capacity = self.events.len() as u64;
        if head >= capacity {
            head -= capacity;
        }
        self.header.head = head;
'''))
ref('eq-slot-helper',
    (EQ, '''    fn gen_seq_num(&mut self) -> u64 {''', '''    fn slot(&self, offset: usize) -> usize {
        (self.header.head as usize + offset) % self.events.len()
    }

    fn gen_seq_num(&mut self) -> u64 {'''),
    (EQ, '''        let event_idx =
            (self.header.head as usize + self.header.count as usize) % self.events.len();
        self.events''', '''        let event_idx = self.slot(self.header.count as usize);
        self.events'''),
    (EQ, '''        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
''', '''        let event_idx = self.queue.slot(self.current_index);
'''),
    (EQ, '''        let event_idx = (self.header.head.checked_add(index).unwrap() as usize) % self.events.len();
        Some(self.get_event(event_idx))''', '''        Some(self.get_event(self.slot(index as usize)))'''))
ref('eq-full-helper',
    (EQ, '        self.header.count as usize == self.events.len()', '        self.header.count as usize >= self.events.len()'),
    (EQ, 'self.header.count == 0', 'self.len() == 0'))
ref('eq-peek-then',
    (EQ, '''        if self.header.count <= index {
            return None;
        }

        let event_idx = (self.header.head.checked_add(index).unwrap() as usize) % self.events.len();
        Some(self.get_event(event_idx))''', '''        if index < self.header.count {
            let event_idx = (self.header.head + index) as usize % self.events.len();
            Some(self.get_event(event_idx))
        } else {
            None
        }'''))
ref('eq-count-last',
    (EQ, '''        self.header.count += 1;

        if let Some(c) = maker''', '''        if let Some(c) = maker'''),
    (EQ, '''            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }

        Ok(())''', '''            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
        self.header.count += 1;

        Ok(())'''))
ref('eq-gen-id',
    (EQ, '''        let seq_num = self.gen_seq_num();
        let upper = (limit_price as u128) << 64;
        let lower = match side {
            Side::Bid => !seq_num,
            Side::Ask => seq_num,
        };
        upper | (lower as u128)''', '''        let seq_num = self.header.seq_num;
        self.header.seq_num = seq_num + 1;
        let lower = if let Side::Bid = side {
            u64::MAX - seq_num
        } else {
            seq_num
        };
        ((limit_price as u128) << 64) + lower as u128'''))
ref('eq-get-event-if',
    (EQ, '''        match EventTag::from_u8(event.tag).unwrap() {
            EventTag::Fill => EventRef::Fill(FillEventRef {
                event,
                maker_callback_info: &self.callback_infos[2 * event_idx],
                taker_callback_info: &self.callback_infos[2 * event_idx + 1],
            }),
            EventTag::Out => EventRef::Out(OutEventRef {
                event: bytemuck::cast_ref(event),
                callback_info: &self.callback_infos[2 * event_idx],
            }),
        }''', '''        let maker_callback_info = &self.callback_infos[2 * event_idx];
        let kind = EventTag::from_u8(event.tag).expect("unknown event kind");
        if matches!(kind, EventTag::Out) {
            return EventRef::Out(OutEventRef {
                event: bytemuck::cast_ref(event),
                callback_info: maker_callback_info,
            });
        }
        EventRef::Fill(FillEventRef {
            event,
            maker_callback_info,
            taker_callback_info: &self.callback_infos[2 * event_idx + 1],
        })'''))
ref('eq-pop-min',
    (EQ, '''        let capped_number_of_entries_to_pop =
            std::cmp::min(self.header.count, number_of_entries_to_pop);
''', '''        let capped_number_of_entries_to_pop = if number_of_entries_to_pop > self.header.count {
            self.header.count
        } else {
            number_of_entries_to_pop
        };
'''))
ref('eq-from-buffer-split',
    (EQ, '''        let (header, remaining) = buf[8..].split_at_mut(EventQueueHeader::LEN);
''', '''        let (_, body) = buf.split_at_mut(8);
        let (header, remaining) = body.split_at_mut(EventQueueHeader::LEN);
'''))
ref('eq-iter-position',
    (EQ, '''        self.current_index += 1;
        self.remaining -= 1;
        Some(self.queue.get_event(event_idx))''', '''        let event = self.queue.get_event(event_idx);
        self.remaining -= 1;
        self.current_index += 1;
        Some(event)'''))
# ------------------------------------------------------------------ slab
ref('cb-minmax-two',
    (CB, '''                    root = node.children[if find_max { 1 } else { 0 }];''', '''                    let [left, right] = node.children;
                    root = if find_max { right } else { left };'''))
ref('cb-minmax-while',
    (CB, '''        loop {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
''', '''        while let Node::Inner = Node::from_handle(root) {
            let node = &self.inner_nodes[(!root) as usize];
            root = node.children[find_max as usize];
        }
        Some(root)
'''))
ref('cb-minmax-split',
    (CB, '''        self.find_min_max(false)
''', '''        let mut node = self.root()?;
        loop {
            match Node::from_handle(node) {
                Node::Leaf => break Some(node),
                Node::Inner => node = self.inner_nodes[(!node) as usize].children[0],
            }
        }
'''))
ref('cb-alloc-order',
    (CB, '''        if self.header.leaf_free_list_len == 0 {
            if self.header.leaf_bump_index as usize >= self.leaf_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index += 1;
            return Ok(key);
        }

        let key = self.header.leaf_free_list_head;
        let free_leaf = &mut self.leaf_nodes[key as usize];
        let next = free_leaf.base_quantity as u32;
        self.header.leaf_free_list_head = next;
        self.header.leaf_free_list_len -= 1;

        Ok(key)''', '''        if self.header.leaf_free_list_len > 0 {
            let key = self.header.leaf_free_list_head;
            self.header.leaf_free_list_len -= 1;
            self.header.leaf_free_list_head = self.leaf_nodes[key as usize].base_quantity as u32;
            Ok(key)
        } else if (self.header.leaf_bump_index as usize) < self.leaf_nodes.len() {
            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index = key + 1;
            Ok(key)
        } else {
            Err(std::io::ErrorKind::UnexpectedEof.into())
        }'''))
ref('cb-free-order',
    (CB, '''        if self.header.leaf_free_list_len != 0 {
            let next = self.header.leaf_free_list_head;
            self.leaf_nodes[handle as usize].base_quantity = next as u64;
        }

        self.header.leaf_free_list_len += 1;
        self.header.leaf_free_list_head = handle;
''', '''        let old_len = self.header.leaf_free_list_len;
        let old_head = std::mem::replace(&mut self.header.leaf_free_list_head, handle);
        self.header.leaf_free_list_len = old_len + 1;
        if old_len > 0 {
            self.leaf_nodes[handle as usize].base_quantity = u64::from(old_head);
        }
'''))
ref('cb-inner-index-helper',
    (CB, '''    pub(crate) fn allocate_leaf(''', '''    fn inner(&self, handle: NodeHandle) -> &InnerNode {
        &self.inner_nodes[(!handle) as usize]
    }

    fn inner_mut(&mut self, handle: NodeHandle) -> &mut InnerNode {
        &mut self.inner_nodes[(!handle) as usize]
    }

    pub(crate) fn allocate_leaf('''),
    (CB, 'let other_child_h = self.inner_nodes[(!parent_h) as usize].children[!crit_bit as usize];', 'let other_child_h = self.inner(parent_h).children[!crit_bit as usize];'),
    (CB, '''                let r = &mut self.inner_nodes[(!h) as usize];
                r.children''', '''                let r = self.inner_mut(h);
                r.children'''),
    (CB, '''                let node = &mut self.inner_nodes[(!n) as usize];
                node.children''', '''                let node = self.inner_mut(n);
                node.children'''),
    (CB, 'let inner = self.inner_nodes[(!child_h) as usize];', 'let inner = *self.inner(child_h);'))
ref('cb-walk-shift',
    (CB, '''        let crit_bit_mask = (1u128 << 127) >> self.prefix_len;
        let crit_bit = (search_key & crit_bit_mask) != 0;
''', '''        let crit_bit = (search_key >> (127 - self.prefix_len)) & 1 == 1;
'''))
ref('cb-walk-mask',
    (CB, '''        let crit_bit_mask = (1u128 << 127) >> self.prefix_len;
        let crit_bit = (search_key & crit_bit_mask) != 0;
''', '''        let crit_bit_mask = 1u128 << (127 - self.prefix_len);
        let crit_bit = search_key & crit_bit_mask == crit_bit_mask;
'''))
ref('cb-insert-key-var',
    (CB, '''        let mut parent_node: Option<NodeHandle> = None;
        let mut previous_critbit: Option<bool> = None;
''', '''        let new_key = new_leaf.order_id();
        let mut parent_node: Option<NodeHandle> = None;
        let mut previous_critbit: Option<bool> = None;
'''),
    (CB, '''                        (root_node.key ^ new_leaf.order_id()).leading_zeros();
                    let keep''', '''                        (root_node.key ^ new_key).leading_zeros();
                    let keep'''),
    (CB, 'let r = root_node.walk_down(new_leaf.order_id());', 'let r = root_node.walk_down(new_key);'),
    (CB, 'let new_leaf_crit_bit = (crit_bit_mask & new_leaf.order_id()) != 0;', 'let new_leaf_crit_bit = (crit_bit_mask & new_key) != 0;'))
ref('cb-insert-parent-pair',
    (CB, '''        let mut parent_node: Option<NodeHandle> = None;
        let mut previous_critbit: Option<bool> = None;
''', '''        let mut link: Option<(NodeHandle, bool)> = None;
'''),
    (CB, '''                        parent_node = Some(root);
''', ''),
    (CB, '''                        root = r.0;
                        previous_critbit = Some(r.1);
''', '''                        link = Some((root, r.1));
                        root = r.0;
'''),
    (CB, '''            if let Some(n) = parent_node {
                let node = &mut self.inner_nodes[(!n) as usize];
                node.children[previous_critbit.unwrap() as usize] = new_root_node_handle;
            } else {
                self.header.root_node = new_root_node_handle;
            }
''', '''            match link {
                Some((n, side)) => {
                    self.inner_nodes[(!n) as usize].children[side as usize] = new_root_node_handle;
                }
                None => self.header.root_node = new_root_node_handle,
            }
'''))
ref('cb-insert-children-array',
    (CB, '''            new_root_node.children[new_leaf_crit_bit as usize] = new_leaf_handle;
            new_root_node.children[old_root_crit_bit as usize] = root;
''', '''            new_root_node.children = if old_root_crit_bit {
                [new_leaf_handle, root]
            } else {
                [root, new_leaf_handle]
            };
'''))
ref('cb-insert-count-first',
    (CB, '''            self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;

            let new_root''', '''            self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;
            self.header.leaf_count += 1;

            let new_root'''),
    (CB, '''                self.header.root_node = new_root_node_handle;
            }
            self.header.leaf_count += 1;
            return''', '''                self.header.root_node = new_root_node_handle;
            }
            return'''))
ref('cb-remove-free-first',
    (CB, '''        self.header.leaf_count -= 1;
        let removed_leaf = self.leaf_nodes[child_h as usize];
        self.free_leaf(child_h);
        self.free_inner_node(parent_h);
''', '''        let removed_leaf = self.leaf_nodes[child_h as usize];
        self.free_inner_node(parent_h);
        self.free_leaf(child_h);
        self.header.leaf_count -= 1;
'''))
ref('cb-remove-root-direct',
    (CB, '''                    #[cfg(not(target_os = "solana"))]
                    if leaf.order_id() == search_key {
                        remove_root = Some(*leaf);
                    }
''', '''                    #[cfg(not(target_os = "solana"))]
                    if leaf.order_id() != search_key {
                        return None;
                    } else {
                        remove_root = Some(*leaf);
                    }
'''))
ref('cb-remove-while-inner',
    (CB, '''        loop {
            match Node::from_handle(child_h) {
                Node::Inner => {
                    let inner = self.inner_nodes[(!child_h) as usize];
                    let (grandchild_h, grandchild_crit_bit) = inner.walk_down(search_key);
                    grandparent_h = Some(parent_h);
                    parent_h = child_h;
                    child_h = grandchild_h;
                    prev_crit_bit = Some(crit_bit);
                    crit_bit = grandchild_crit_bit;
                    // depth += 1;
                    continue;
                }
                Node::Leaf => {
                    let leaf = &self.leaf_nodes[child_h as usize];
                    #[cfg(target_os = "solana")]
                    if leaf.key != search_key {
                        return None;
                    }
                    #[cfg(not(target_os = "solana"))]
                    if leaf.order_id() != search_key {
                        return None;
                    }

                    break;
                }
            }
        }
''', '''        while child_h & INNER_FLAG != 0 {
            let (next, bit) = self.inner_nodes[(!child_h) as usize].walk_down(search_key);
            grandparent_h = Some(parent_h);
            prev_crit_bit = Some(crit_bit);
            parent_h = child_h;
            child_h = next;
            crit_bit = bit;
        }
        if self.leaf_nodes[child_h as usize].order_id() != search_key {
            return None;
        }
'''))
ref('cb-from-handle-match',
    (CB, '''        if h & INNER_FLAG == 0 {
            Self::Leaf
        } else {
            Self::Inner
        }''', '''        match h & INNER_FLAG {
            0 => Self::Leaf,
            _ => Self::Inner,
        }'''))
ref('cb-from-handle-lt',
    (CB, '''        if h & INNER_FLAG == 0 {''', '''        if h < INNER_FLAG {'''))
ref('cb-alloc-size-terms',
    (CB, '''        8 + SlabHeader::LEN
            + LeafNode::LEN
            + std::mem::size_of::<C>()
            + (desired_order_capacity.checked_sub(1).unwrap())
                * (LeafNode::LEN + InnerNode::LEN + std::mem::size_of::<C>())''', '''        let leaf_size = LeafNode::LEN + std::mem::size_of::<C>();
        let inner_nodes = desired_order_capacity.checked_sub(1).unwrap();
        8 + SlabHeader::LEN + leaf_size * desired_order_capacity + inner_nodes * InnerNode::LEN'''))
# ------------------------------------------------------------------ processors
PN = 'processor/new_order.rs'
PC = 'processor/cancel_order.rs'
PM = 'processor/mass_cancel_orders.rs'
PE = 'processor/consume_events.rs'
PX = 'processor/close_market.rs'
PR = 'processor/create_market.rs'
ref('p-owner-loop',
    (PC, '''        check_account_owner(
            self.market,
            &program_id.to_bytes(),
            AoError::WrongMarketOwner,
        )?;
        check_account_owner(
            self.event_queue,
            &program_id.to_bytes(),
            AoError::WrongEventQueueOwner,
        )?;
        check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)?;
        check_account_owner(self.asks, &program_id.to_bytes(), AoError::WrongAsksOwner)?;
        Ok(())''', '''        for (account, error) in [
            (self.market, AoError::WrongMarketOwner),
            (self.event_queue, AoError::WrongEventQueueOwner),
            (self.bids, AoError::WrongBidsOwner),
            (self.asks, AoError::WrongAsksOwner),
        ] {
            check_account_owner(account, &program_id.to_bytes(), error)?;
        }
        Ok(())'''))
ref('p-owner-inline',
    (PM, '''        check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)?;
        check_account_owner(self.asks, &program_id.to_bytes(), AoError::WrongAsksOwner)?;
        Ok(())''', '''        if self.bids.owner != program_id {
            return Err(AoError::WrongBidsOwner.into());
        }
        check_account_owner(self.asks, program_id.as_ref(), AoError::WrongAsksOwner)
            .map_err(ProgramError::from)'''))
ref('p-owner-eq',
    ('utils.rs', '''    if account.owner.to_bytes() != owner {
        return Err(error);
    }
    Ok(())''', '''    if account.owner.as_ref() == owner {
        Ok(())
    } else {
        Err(error)
    }'''))
ref('p-key-match',
    ('utils.rs', '''    if account.key != key {
        return Err(error);
    }
    Ok(())''', '''    match account.key == key {
        true => Ok(()),
        false => Err(error),
    }'''))
ref('p-check-accounts-shared',
    (PC, '''    check_accounts(&accounts, market_state)?;
''', '''    market_state.check_accounts(accounts.event_queue, accounts.bids, accounts.asks)?;
'''),
    (PC, '''fn check_accounts<'a, 'b: 'a>(
    accounts: &Accounts<'a, AccountInfo<'b>>,
    market_state: &MarketState,
) -> ProgramResult {
    check_account_key(
        accounts.event_queue,
        &market_state.event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    check_account_key(accounts.bids, &market_state.bids, AoError::WrongBidsAccount)?;
    check_account_key(accounts.asks, &market_state.asks, AoError::WrongAsksAccount)?;

    Ok(())
}
''', ''),
    (PC, 'utils::{check_account_key, check_account_owner},', 'utils::check_account_owner,'),
    (PC, '''    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
    pubkey::Pubkey,''', '''    account_info::AccountInfo, program_error::ProgramError, pubkey::Pubkey,'''),
    ('state/market_state.rs', '''    #[allow(missing_docs)]
    pub fn check_buffer_size(''', '''    pub(crate) fn check_accounts(
        &self,
        event_queue: &solana_program::account_info::AccountInfo,
        bids: &solana_program::account_info::AccountInfo,
        asks: &solana_program::account_info::AccountInfo,
    ) -> Result<(), AoError> {
        use crate::utils::check_account_key;
        check_account_key(event_queue, &self.event_queue, AoError::WrongEventQueueAccount)?;
        check_account_key(bids, &self.bids, AoError::WrongBidsAccount)?;
        check_account_key(asks, &self.asks, AoError::WrongAsksAccount)
    }

    #[allow(missing_docs)]
    pub fn check_buffer_size('''))
ref('p-new-order-validate',
    (PN, '''    if params.limit_price % market_state.tick_size != 0 {
        return Err(AoError::InvalidLimitPrice.into());
    }

    if params.post_allowed && params.limit_price < market_state.tick_size {
        msg!(
            "Can't attempt to post an order of price less than market tick size to the orderbook!"
        );
        return Err(AoError::InvalidLimitPrice.into());
    }
''', '''    check_price(&params, market_state)?;
'''),
    (PN, '''fn check_accounts<''', '''fn check_price<C>(params: &Params<C>, market_state: &MarketState) -> Result<(), AoError> {
    let tick = market_state.tick_size;
    let on_grid = params.limit_price % tick == 0;
    let too_low = params.limit_price < tick;
    if !on_grid || (too_low && params.post_allowed) {
        return Err(AoError::InvalidLimitPrice);
    }
    Ok(())
}

fn check_accounts<'''))
ref('p-new-order-queue-first',
    (PN, '''    let mut bids_guard = accounts.bids.data.borrow_mut();
    let mut asks_guard = accounts.asks.data.borrow_mut();

    let mut order_book = OrderBookState::new_safe(&mut bids_guard, &mut asks_guard)?;

    let mut event_queue_guard = accounts.event_queue.data.borrow_mut();
    let mut event_queue = EventQueue::from_buffer(&mut event_queue_guard, AccountTag::EventQueue)?;

    let order_summary =
        order_book.new_order(params, &mut event_queue, market_state.min_base_order_size)?;
    msg!("Order summary : {:?}", order_summary);

    Ok(order_summary)''', '''    let mut event_queue_guard = accounts.event_queue.data.borrow_mut();
    let mut event_queue = EventQueue::from_buffer(&mut event_queue_guard, AccountTag::EventQueue)?;

    let mut asks_guard = accounts.asks.data.borrow_mut();
    let mut bids_guard = accounts.bids.data.borrow_mut();
    let min_size = market_state.min_base_order_size;
    OrderBookState::new_safe(&mut bids_guard, &mut asks_guard)?
        .new_order(params, &mut event_queue, min_size)
        .map_err(Into::into)'''))
ref('p-cancel-leaf-helper',
    (PC, '''    let slab = order_book.get_tree(get_side_from_order_id(params.order_id));
    let (leaf_node, _) = slab
        .remove_by_key(params.order_id)
        .ok_or(AoError::OrderNotFound)?;
    let total_base_qty = leaf_node.base_quantity;
    let total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
        .ok_or(AoError::NumericalOverflow)?;
''', '''    let side = get_side_from_order_id(params.order_id);
    let removed = order_book.get_tree(side).remove_by_key(params.order_id);
    let leaf_node = match removed {
        Some((leaf, _)) => leaf,
        None => return Err(AoError::OrderNotFound.into()),
    };
    let price = leaf_node.price();
    let total_base_qty = leaf_node.base_quantity;
    let total_quote_qty = match fp32_mul_floor(total_base_qty, price) {
        Some(quote) => quote,
        None => return Err(AoError::NumericalOverflow.into()),
    };
'''))
ref('p-mass-index-loop',
    (PM, '''    for order_id in params.order_ids {
        let slab''', '''    let mut i = 0;
    while i < params.order_ids.len() {
        let order_id = params.order_ids[i];
        i += 1;
        let slab'''))
ref('p-mass-iter-ref',
    (PM, '''    for order_id in params.order_ids {
        let slab''', '''    for &order_id in params.order_ids.iter() {
        let slab'''))
ref('p-mass-method',
    (PM, '''        let slab = order_book.get_tree(get_side_from_order_id(order_id));
        let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
''', '''        let (base, quote) = cancel_one(&mut order_book, order_id)?;
        total_base_qty = total_base_qty.checked_add(base).ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = total_quote_qty.checked_add(quote).ok_or(AoError::NumericalOverflow)?;
'''),
    (PM, '''fn check_accounts<''', '''fn cancel_one<C: CallbackInfo>(
    order_book: &mut OrderBookState<C>,
    order_id: u128,
) -> Result<(u64, u64), AoError> {
    let slab = order_book.get_tree(get_side_from_order_id(order_id));
    let (leaf, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
    let quote = fp32_mul_floor(leaf.base_quantity, leaf.price()).ok_or(AoError::NumericalOverflow)?;
    Ok((leaf.base_quantity, quote))
}

fn check_accounts<'''))
ref('p-consume-capped',
    (PE, '''    // Pop Events
    event_queue.pop_n(params.number_of_entries_to_consume);
''', '''    // Pop Events
    event_queue.pop_n(capped_number_of_entries_consumed);
'''))
ref('p-consume-len',
    (PE, '''    let capped_number_of_entries_consumed = std::cmp::min(
        event_queue.header.count,
        params.number_of_entries_to_consume,
    );

    // Pop Events
    event_queue.pop_n(params.number_of_entries_to_consume);
''', '''    let pending = event_queue.len();
    event_queue.pop_n(params.number_of_entries_to_consume);
    let capped_number_of_entries_consumed = pending - event_queue.len();
'''))
ref('p-consume-one-check',
    (PE, '''    check_account_key(
        accounts.event_queue,
        &market_state.event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    check_account_key(
        accounts.event_queue,
        &market_state.event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    Ok(())''', '''    check_account_key(
        accounts.event_queue,
        &market_state.event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    Ok(())'''))
ref('p-close-loop',
    (PX, '''    let mut market_lamports = accounts.market.lamports.borrow_mut();
    let mut bids_lamports = accounts.bids.lamports.borrow_mut();
    let mut asks_lamports = accounts.asks.lamports.borrow_mut();
    let mut event_queue_lamports = accounts.event_queue.lamports.borrow_mut();

    let mut target_lamports = accounts.lamports_target_account.lamports.borrow_mut();

    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;

    **market_lamports = 0;
    **bids_lamports = 0;
    **asks_lamports = 0;
    **event_queue_lamports = 0;
''', '''    let mut target_lamports = accounts.lamports_target_account.lamports.borrow_mut();
    for account in [
        accounts.market,
        accounts.bids,
        accounts.asks,
        accounts.event_queue,
    ] {
        let mut lamports = account.lamports.borrow_mut();
        **target_lamports += **lamports;
        **lamports = 0;
    }
'''))
ref('p-close-helper',
    (PX, '''    let mut market_lamports = accounts.market.lamports.borrow_mut();
    let mut bids_lamports = accounts.bids.lamports.borrow_mut();
    let mut asks_lamports = accounts.asks.lamports.borrow_mut();
    let mut event_queue_lamports = accounts.event_queue.lamports.borrow_mut();

    let mut target_lamports = accounts.lamports_target_account.lamports.borrow_mut();

    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;

    **market_lamports = 0;
    **bids_lamports = 0;
    **asks_lamports = 0;
    **event_queue_lamports = 0;
''', '''    let mut total = drain(accounts.market);
    total += drain(accounts.bids);
    total += drain(accounts.asks);
    total += drain(accounts.event_queue);
    **accounts.lamports_target_account.lamports.borrow_mut() += total;
'''),
    (PX, '''fn check_accounts<''', '''fn drain(account: &AccountInfo) -> u64 {
    let mut lamports = account.lamports.borrow_mut();
    let value = **lamports;
    **lamports = 0;
    value
}

fn check_accounts<'''))
ref('p-close-is-empty',
    (PX, '''    if event_queue.header.count != 0 {''', '''    if !event_queue.is_empty() {'''),
    (PX, '''    if !orderbook_state.is_empty() {''', '''    if orderbook_state.bids.header.leaf_count != 0 || orderbook_state.asks.header.leaf_count != 0 {'''))
ref('p-close-tags-helper',
    (PX, '''    *bytemuck::from_bytes_mut(&mut market_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut asks_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut bids_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut event_queue_data[0..8]) = AccountTag::Disabled as u64;
''', '''    disable(&mut market_data);
    disable(&mut event_queue_data);
    disable(&mut bids_data);
    disable(&mut asks_data);
'''),
    (PX, '''fn check_accounts<''', '''fn disable(data: &mut [u8]) {
    data[..8].copy_from_slice(&(AccountTag::Disabled as u64).to_le_bytes());
}

fn check_accounts<'''))
ref('p-close-queue-first',
    (PX, '''    if !orderbook_state.is_empty() {
        msg!("The orderbook must be empty");
        return Err(ProgramError::from(AoError::MarketStillActive));
    }

''', '''    let has_orders = !orderbook_state.is_empty();
'''),
    (PX, '''    if event_queue.header.count != 0 {
        msg!("The event queue needs to be empty");''', '''    if has_orders || event_queue.header.count != 0 {
        msg!("The market needs to be empty");'''))
ref('p-create-rent-loop',
    (PR, '''    check_rent_exempt(accounts.asks)?;
    check_rent_exempt(accounts.bids)?;
    check_rent_exempt(accounts.event_queue)?;
    check_rent_exempt(accounts.market)?;

    Ok(())''', '''    [
        accounts.asks,
        accounts.bids,
        accounts.event_queue,
        accounts.market,
    ]
    .iter()
    .try_for_each(|a| check_rent_exempt(a))'''))
ref('p-create-fields',
    (PR, '''    *market_state = MarketState {
        event_queue: *accounts.event_queue.key,
        bids: *accounts.bids.key,
        asks: *accounts.asks.key,
        min_base_order_size,
        tick_size,
    };
''', '''    market_state.tick_size = tick_size;
    market_state.min_base_order_size = min_base_order_size;
    market_state.asks = *accounts.asks.key;
    market_state.bids = *accounts.bids.key;
    market_state.event_queue = *accounts.event_queue.key;
'''))
ref('p-create-param-checks',
    (PR, '''    let Params {
        min_base_order_size,
        tick_size,
    } = params;

    check_rent(&accounts)?;

    if min_base_order_size == 0 || tick_size == 0 {
        msg!("min_base_order_size and tick_size must be > 0");
        return Err(ProgramError::InvalidArgument);
    }
''', '''    check_rent(&accounts)?;
    let min_base_order_size = params.min_base_order_size;
    let tick_size = params.tick_size;
    if tick_size < 1 {
        return Err(ProgramError::InvalidArgument);
    }
    if !(min_base_order_size > 0) {
        return Err(ProgramError::InvalidArgument);
    }
'''))
ref('p-create-slab-first',
    (PR, '''    let mut event_queue_data = accounts.event_queue.data.borrow_mut();

    EventQueue::<C>::from_buffer(&mut event_queue_data, AccountTag::Uninitialized)?;

    Slab::<C>::initialize(
        &mut accounts.asks.data.borrow_mut(),
        &mut accounts.bids.data.borrow_mut(),
    )?;
''', '''    let mut asks_data = accounts.asks.data.borrow_mut();
    let mut bids_data = accounts.bids.data.borrow_mut();
    Slab::<C>::initialize(&mut asks_data, &mut bids_data)?;

    let mut event_queue_data = accounts.event_queue.data.borrow_mut();
    EventQueue::<C>::from_buffer(&mut event_queue_data, AccountTag::Uninitialized).map(|_| ())?;
'''))
ref('p-dispatch-split',
    ('processor.rs', '''    let instruction =
        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;
    let instruction_data = &instruction_data[1..];
''', '''    let (tag, instruction_data) = instruction_data.split_at(1);
    let instruction = AgnosticOrderbookInstruction::from_u8(tag[0])
        .ok_or(ProgramError::InvalidInstructionData)?;
'''))
ref('p-dispatch-result',
    ('processor.rs', '''            return cancel_order::process::<C>(program_id, accounts, params).map(Some);''',
     '''            let summary = cancel_order::process::<C>(program_id, accounts, params)?;
            return Ok(Some(summary));'''))
ref('p-dispatch-helper',
    ('processor.rs', '''            let params = consume_events::Params::try_from_slice(instruction_data)
                .map_err(|_| ProgramError::InvalidInstructionData)?;
            consume''', '''            let params: consume_events::Params = decode(instruction_data)?;
            consume'''),
    ('processor.rs', '''            let params = cancel_order::Params::try_from_slice(instruction_data)
                .map_err(|_| ProgramError::InvalidInstructionData)?;
''', '''            let params = decode::<cancel_order::Params>(instruction_data)?;
'''),
    ('processor.rs', '''pub fn process_instruction<C: Pod''' , '''fn decode<P: BorshDeserialize>(data: &[u8]) -> Result<P, ProgramError> {
    P::try_from_slice(data).map_err(|_| ProgramError::InvalidInstructionData)
}

pub fn process_instruction<C: Pod''') )
ref('p-round-price',
    ('utils.rs', '''        Side::Bid => tick_size * (limit_price / tick_size),
        // Round up
        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),''', '''        Side::Bid => limit_price - limit_price % tick_size,
        // Round up
        Side::Ask => {
            let ticks = (limit_price + (tick_size - 1)) / tick_size;
            ticks * tick_size
        }'''))
ref('p-side-from-id',
    ('state.rs', '''    if ORDER_ID_SIDE_FLAG & order_id != 0 {
        Side::Bid
    } else {
        Side::Ask
    }''', '''    match (order_id >> 63) & 1 {
        1 => Side::Bid,
        _ => Side::Ask,
    }'''))
ref('p-side-opposite',
    ('state.rs', '''        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }''', '''        if *self == Side::Bid {
            Side::Ask
        } else {
            Side::Bid
        }'''))
ref('p-market-tag',
    ('state/market_state.rs', '''        let tag = bytemuck::from_bytes_mut::<u64>(&mut account_data[0..8]);
        if tag != &(expected_tag as u64) {
            return Err(AoError::AccountTagMismatch.into());
        };
        *tag = AccountTag::Market as u64;

        let (_, data) = account_data.split_at_mut(8);
''', '''        let (tag_bytes, data) = account_data.split_at_mut(8);
        let tag: &mut u64 = bytemuck::from_bytes_mut(tag_bytes);
        if *tag != expected_tag as u64 {
            return Err(ProgramError::from(AoError::AccountTagMismatch));
        }
        *tag = AccountTag::Market as u64;
'''))
ref('p-market-tag-le',
    ('state/market_state.rs', '''        let tag = bytemuck::from_bytes_mut::<u64>(&mut account_data[0..8]);
        if tag != &(expected_tag as u64) {
            return Err(AoError::AccountTagMismatch.into());
        };
        *tag = AccountTag::Market as u64;
''', '''        let tag = u64::from_le_bytes(account_data[0..8].try_into().unwrap());
        if tag != expected_tag as u64 {
            return Err(AoError::AccountTagMismatch.into());
        };
        account_data[0..8].copy_from_slice(&(AccountTag::Market as u64).to_le_bytes());
'''),
    ('state/market_state.rs', '''use std::mem::size_of;''', '''use std::{convert::TryInto, mem::size_of};'''))
# ------------------------------------------------------------------ level 2 depth, spread
ref('l2-spread-find-bbo',
    (NO, '''        let best_bid_price = self
            .bids
            .find_max()
            .map(|h| self.bids.leaf_nodes[h as usize].price());
''', '''        let best_bid_price = match self.find_bbo(Side::Bid) {
            Some(h) => Some(self.bids.leaf_nodes[h as usize].price()),
            None => None,
        };
'''))
# ------------------------------------------------------------------ second batch: other styles
UT = 'utils.rs'
ref('x-no-order-id-fn',
    (NO, IMPL, '''
#[cfg(target_os = "solana")]
fn split_id(id: u128) -> u128 {
    id
}
#[cfg(not(target_os = "solana"))]
fn split_id(id: u128) -> [u64; 2] {
    [id as u64, (id >> 64) as u64]
}
''' + IMPL),
    (NO, '''                    #[cfg(target_os = "solana")]
                    let order_id = best_offer_id;
                    #[cfg(not(target_os = "solana"))]
                    let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                    let provide_out''', '''                    let order_id = split_id(best_offer_id);
                    let provide_out'''),
    (NO, '''            #[cfg(target_os = "solana")]
            let maker_order_id = best_bo_ref.order_id();
            #[cfg(not(target_os = "solana"))]
            let maker_order_id = {
                let o = best_bo_ref.order_id();
                [o as u64, (o >> 64) as u64]
            };
''', '''            let maker_order_id = split_id(best_bo_ref.order_id());
'''),
    (NO, '''            key: {
                #[cfg(target_os = "solana")]
                let k = new_leaf_order_id;
                #[cfg(not(target_os = "solana"))]
                let k = [new_leaf_order_id as u64, (new_leaf_order_id >> 64) as u64];
                k
            },''', '''            key: split_id(new_leaf_order_id),'''))
ref('x-no-self-trade-fn',
    (NO, IMPL, '''
fn same_owner<C: CallbackInfo>(a: &C, b: &C) -> bool
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    a.as_callback_id() == b.as_callback_id()
}
''' + IMPL),
    (NO, '''            if self_trade_behavior != SelfTradeBehavior::DecrementTake {
                let order_would_self_trade = callback_info.as_callback_id()
                    == opposite_slab.callback_infos[best_bo_h as usize].as_callback_id();
                if order_would_self_trade {
''', '''            let checks_owner = self_trade_behavior != SelfTradeBehavior::DecrementTake;
            {
                if checks_owner
                    && same_owner(
                        &callback_info,
                        &opposite_slab.callback_infos[best_bo_h as usize],
                    )
                {
'''))
ref('x-no-nothing-posted',
    (NO, '''        if crossed || !post_allowed || base_qty_to_post < min_base_order_size {
            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: max_base_qty - base_qty_remaining,
                total_quote_qty: max_quote_qty - quote_qty_remaining,
                total_base_qty_posted: 0,
            });
        }
''', '''        let not_posted = OrderSummary {
            posted_order_id: None,
            total_base_qty: max_base_qty - base_qty_remaining,
            total_quote_qty: max_quote_qty - quote_qty_remaining,
            total_base_qty_posted: 0,
        };
        let can_post = post_allowed && !crossed && base_qty_to_post >= min_base_order_size;
        if !can_post {
            return Ok(not_posted);
        }
'''),
    (NO, '''            } else {
                return Ok(OrderSummary {
                    posted_order_id: None,
                    total_base_qty: max_base_qty - base_qty_remaining,
                    total_quote_qty: max_quote_qty - quote_qty_remaining,
                    total_base_qty_posted: 0,
                });
            }
        } else {
            insert_result''', '''            } else {
                return Ok(not_posted);
            }
        } else {
            insert_result'''))
ref('x-no-insert-match',
    (NO, '''        let k = if let Err(AoError::SlabOutOfSpace) = insert_result {
''', '''        let k = if matches!(insert_result, Err(AoError::SlabOutOfSpace)) {
'''))
ref('x-no-insert-full-match',
    (NO, '''        let k = if let Err(AoError::SlabOutOfSpace) = insert_result {
            // Boot out the least aggressive orders
''', '''        let k = if let Ok((h, _)) = insert_result {
            h
        } else {
            // Boot out the least aggressive orders
'''),
    (NO, '''            } else {
                return Ok(OrderSummary {
                    posted_order_id: None,
                    total_base_qty: max_base_qty - base_qty_remaining,
                    total_quote_qty: max_quote_qty - quote_qty_remaining,
                    total_base_qty_posted: 0,
                });
            }
        } else {
            insert_result.unwrap().0
        };''', '''            } else {
                return Ok(OrderSummary {
                    posted_order_id: None,
                    total_base_qty: max_base_qty - base_qty_remaining,
                    total_quote_qty: max_quote_qty - quote_qty_remaining,
                    total_base_qty_posted: 0,
                });
            }
        };'''))
ref('x-no-limit-local',
    (NO, '''            mut match_limit,
        } = params;
''', '''            match_limit,
        } = params;
        let mut matches_left = match_limit;
'''),
    (NO, '''            if match_limit == 0 {
                break;
            }
            let best''', '''            if matches_left == 0 {
                break;
            }
            let best'''),
    (NO, '''                    match_limit -= 1;

                    continue;''', '''                    matches_left -= 1;

                    continue;'''),
    (NO, '''            match_limit -= 1;
        }
''', '''            matches_left -= 1;
        }
'''))
ref('x-no-price-key',
    (NO, '''            let trade_price = best_bo_ref.price();
''', '''            let trade_price = LeafNode::price_from_key(best_bo_ref.order_id());
'''))
ref('x-no-copy-leaf',
    (NO, '''            let offer_size = best_bo_ref.base_quantity;
            let base_trade_qty = offer_size
                .min(base_qty_remaining)
                .min(fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX));
''', '''            let maker = *best_bo_ref;
            let affordable = match fp32_div(quote_qty_remaining, maker.price()) {
                Some(q) => q,
                None => u64::MAX,
            };
            let wanted = base_qty_remaining.min(affordable);
            let base_trade_qty = if wanted < maker.base_quantity {
                wanted
            } else {
                maker.base_quantity
            };
'''))
ref('x-no-left-after',
    (NO, '''            best_bo_ref.base_quantity -= base_trade_qty;
            base_qty_remaining -= base_trade_qty;
            quote_qty_remaining -= quote_maker_qty;

            if best_bo_ref.base_quantity < min_base_order_size {
                let best_offer_id = best_bo_ref.order_id();
''', '''            let left = offer_size - base_trade_qty;
            best_bo_ref.base_quantity = left;
            quote_qty_remaining -= quote_maker_qty;
            base_qty_remaining -= base_trade_qty;

            if left < min_base_order_size {
                let best_offer_id = best_bo_ref.order_id();
'''),
    (NO, '''                    side: cur_side as u8,
                    order_id,
                    base_size: best_bo_ref.base_quantity,
''', '''                    side: cur_side as u8,
                    order_id,
                    base_size: left,
'''))
ref('x-no-error-from',
    (NO, '''            event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .map_err(|_| AoError::EventQueueFull)?;
''', '''            if event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .is_err()
            {
                return Err(AoError::EventQueueFull);
            }
'''))
ref('x-no-get-tree-inline',
    (NO, '''            let opposite_slab = self.get_tree(side.opposite());

            let best_bo_ref''', '''            let opposite_slab = match side {
                Side::Bid => &mut self.asks,
                Side::Ask => &mut self.bids,
            };

            let best_bo_ref'''))
ref('x-no-boot-tuple',
    (NO, '''            let boot_candidate = match side {
                Side::Bid => slab.find_min().unwrap(),
                Side::Ask => slab.find_max().unwrap(),
            };
            // let boot_candidate_key = slab.leaf_nodes[boot_candidate as usize].key;
            let boot_candidate_key = slab.leaf_nodes[boot_candidate as usize].order_id();
            let boot_candidate_price = LeafNode::price_from_key(boot_candidate_key);
            let should_boot = match side {
                Side::Bid => boot_candidate_price < limit_price,
                Side::Ask => boot_candidate_price > limit_price,
            };
''', '''            let boot_candidate = if side == Side::Bid {
                slab.find_min()
            } else {
                slab.find_max()
            }
            .unwrap();
            let worst = slab.leaf_nodes[boot_candidate as usize];
            let boot_candidate_key = worst.order_id();
            let (low, high) = if side == Side::Bid {
                (worst.price(), limit_price)
            } else {
                (limit_price, worst.price())
            };
            let should_boot = low < high;
'''))
ref('x-no-post-quote-first',
    (NO, '''        *self.get_tree(side).get_callback_info_mut(k) = callback_info;
        base_qty_remaining -= base_qty_to_post;
        quote_qty_remaining -= match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        }
        .ok_or(AoError::NumericalOverflow)?;
''', '''        let slab = self.get_tree(side);
        slab.callback_infos[k as usize] = callback_info;
        let posted_quote = match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        };
        match posted_quote {
            Some(q) => quote_qty_remaining -= q,
            None => return Err(AoError::NumericalOverflow),
        }
        base_qty_remaining -= base_qty_to_post;
'''))
ref('x-no-empty-checks',
    (NO, '''        self.asks.header.leaf_count == 0 && self.bids.header.leaf_count == 0
''', '''        self.asks.root().is_none() && self.bids.root().is_none()
'''))
ref('x-no-empty-sum',
    (NO, '''        self.asks.header.leaf_count == 0 && self.bids.header.leaf_count == 0
''', '''        [&self.asks, &self.bids]
            .iter()
            .all(|s| s.header.leaf_count == 0)
'''))
ref('x-no-bbo-if',
    (NO, '''        match side {
            Side::Bid => self.bids.find_max(),
            Side::Ask => self.asks.find_min(),
        }''', '''        if let Side::Ask = side {
            return self.asks.find_min();
        }
        self.bids.find_max()'''))
# event queue
ref('x-eq-push-ref',
    (EQ, '''        self.events[event_idx] = *generic_event;

        self.header.count += 1;

        if let Some(c) = maker_callback_info {
            self.callback_infos[event_idx * 2] = c.clone();
        }

        if let Some(c) = taker_callback_info {
            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
''', '''        let slot = &mut self.events[event_idx];
        *slot = *generic_event;

        let infos = &mut self.callback_infos[2 * event_idx..2 * event_idx + 2];
        if let Some(c) = maker_callback_info {
            infos[0] = c.clone();
        }
        if let Some(c) = taker_callback_info {
            infos[1] = c.clone();
        }
        self.header.count += 1;
'''))
ref('x-eq-push-loop',
    (EQ, '''        if let Some(c) = maker_callback_info {
            self.callback_infos[event_idx * 2] = c.clone();
        }

        if let Some(c) = taker_callback_info {
            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
''', '''        let infos = [maker_callback_info, taker_callback_info];
        for (i, info) in infos.iter().enumerate() {
            if let Some(c) = info {
                self.callback_infos[2 * event_idx + i] = (*c).clone();
            }
        }
'''))
ref('x-eq-full-ge',
    (EQ, '''        self.header.count as usize == self.events.len()
''', '''        self.events.len() as u64 == self.header.count
'''))
ref('x-eq-tag-match',
    (EQ, '''        match EventTag::from_u8(event.tag).unwrap() {
            EventTag::Fill => EventRef::Fill(FillEventRef {
                event,
                maker_callback_info: &self.callback_infos[2 * event_idx],
                taker_callback_info: &self.callback_infos[2 * event_idx + 1],
            }),
            EventTag::Out => EventRef::Out(OutEventRef {
                event: bytemuck::cast_ref(event),
                callback_info: &self.callback_infos[2 * event_idx],
            }),
        }''', '''        let maker_idx = 2 * event_idx;
        let maker = &self.callback_infos[maker_idx];
        match EventTag::from_u8(event.tag) {
            Some(EventTag::Out) => EventRef::Out(OutEventRef {
                event: bytemuck::cast_ref(event),
                callback_info: maker,
            }),
            Some(EventTag::Fill) => EventRef::Fill(FillEventRef {
                event,
                maker_callback_info: maker,
                taker_callback_info: &self.callback_infos[maker_idx + 1],
            }),
            None => panic!("invalid event tag"),
        }'''))
ref('x-eq-iter-range',
    (EQ, '''        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
        self.current_index += 1;
        self.remaining -= 1;
        Some(self.queue.get_event(event_idx))
''', '''        let offset = self.current_index;
        self.remaining -= 1;
        self.current_index = offset + 1;
        let head = self.queue.header.head as usize;
        let event = self.queue.get_event((offset + head) % self.queue.events.len());
        Some(event)
'''))
ref('x-eq-iter-checked',
    (EQ, '''        if self.remaining == 0 {
            return None;
        }
        let event_idx''', '''        self.remaining = self.remaining.checked_sub(1)?;
        let event_idx'''),
    (EQ, '''        self.current_index += 1;
        self.remaining -= 1;
''', '''        self.current_index += 1;
'''))
ref('x-eq-pop-saturating',
    (EQ, '''        let capped_number_of_entries_to_pop =
            std::cmp::min(self.header.count, number_of_entries_to_pop);
        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''        let left = self.header.count.saturating_sub(number_of_entries_to_pop);
        let popped = self.header.count - left;
        let capacity = self.events.len() as u64;
        self.header.head = (popped + self.header.head) % capacity;
        self.header.count = left;
'''))
ref('x-eq-side-if',
    (EQ, '''        let seq_num = self.gen_seq_num();
        let upper = (limit_price as u128) << 64;
        let lower = match side {
            Side::Bid => !seq_num,
            Side::Ask => seq_num,
        };
        upper | (lower as u128)
''', '''        let mut lower = self.gen_seq_num();
        if side == Side::Bid {
            lower = u64::MAX - lower;
        }
        ((limit_price as u128) << 64) + lower as u128
'''))
ref('x-eq-buffer-sizes',
    (EQ, '''        if account_len < HEADER_OFFSET + 5 * event_size {
            msg!("The event queue account is too small!");
            return Err(ProgramError::InvalidAccountData);
        }
        if (account_len - HEADER_OFFSET) % event_size != 0 {
            msg!("Event queue account size is invalid!");
            return Err(ProgramError::InvalidAccountData);
        }
        Ok(())
''', '''        match account_len.checked_sub(HEADER_OFFSET) {
            Some(n) if n >= 5 * event_size && n % event_size == 0 => Ok(()),
            _ => {
                msg!("Event queue account size is invalid!");
                Err(ProgramError::InvalidAccountData)
            }
        }
'''))
# critbit
ref('x-cb-free-match',
    (CB, '''        if self.header.leaf_free_list_len != 0 {
            let next = self.header.leaf_free_list_head;
            self.leaf_nodes[handle as usize].base_quantity = next as u64;
        }

        self.header.leaf_free_list_len += 1;
        self.header.leaf_free_list_head = handle;
''', '''        let header = &mut *self.header;
        if header.leaf_free_list_len > 0 {
            self.leaf_nodes[handle as usize].base_quantity = u64::from(header.leaf_free_list_head);
        }
        header.leaf_free_list_head = handle;
        header.leaf_free_list_len += 1;
'''))
ref('x-cb-alloc-else',
    (CB, '''        if self.header.inner_node_free_list_len == 0 {
            if self.header.inner_node_bump_index as usize >= self.inner_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            let key = self.header.inner_node_bump_index;
            self.header.inner_node_bump_index += 1;
            return Ok(!key);
        }

        let key = self.header.inner_node_free_list_head;
        let free_inner_node = &mut self.inner_nodes[key as usize];
        let next = free_inner_node.prefix_len as u32;
        self.header.inner_node_free_list_head = next;
        self.header.inner_node_free_list_len -= 1;

        Ok(!key)
''', '''        let key = if self.header.inner_node_free_list_len != 0 {
            let key = self.header.inner_node_free_list_head;
            self.header.inner_node_free_list_head = self.inner_nodes[key as usize].prefix_len as u32;
            self.header.inner_node_free_list_len -= 1;
            key
        } else {
            let key = self.header.inner_node_bump_index;
            if self.inner_nodes.len() <= key as usize {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            self.header.inner_node_bump_index = key + 1;
            key
        };
        Ok(u32::MAX ^ key)
'''))
ref('x-cb-insert-root-if',
    (CB, '''        let mut root: NodeHandle = if self.header.leaf_count == 0 {
            // create a new root if none exists
            let new_leaf_handle = self.allocate_leaf().map_err(|_| AoError::SlabOutOfSpace)?;
            self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;
            self.header.root_node = new_leaf_handle;
            self.header.leaf_count += 1;
            return Ok((new_leaf_handle, None));
        } else {
            self.header.root_node
        };
''', '''        let mut root: NodeHandle = match self.root() {
            Some(h) => h,
            None => {
                let new_leaf_handle = match self.allocate_leaf() {
                    Ok(h) => h,
                    Err(_) => return Err(AoError::SlabOutOfSpace),
                };
                self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;
                self.header.leaf_count = 1;
                self.header.root_node = new_leaf_handle;
                return Ok((new_leaf_handle, None));
            }
        };
'''))
ref('x-cb-insert-link-first',
    (CB, '''            new_root_node.children[new_leaf_crit_bit as usize] = new_leaf_handle;
            new_root_node.children[old_root_crit_bit as usize] = root;

            if let Some(n) = parent_node {
                let node = &mut self.inner_nodes[(!n) as usize];
                node.children[previous_critbit.unwrap() as usize] = new_root_node_handle;
            } else {
                self.header.root_node = new_root_node_handle;
            }
            self.header.leaf_count += 1;
''', '''            if new_leaf_crit_bit {
                new_root_node.children = [root, new_leaf_handle];
            } else {
                new_root_node.children = [new_leaf_handle, root];
            }
            self.header.leaf_count += 1;
            match (parent_node, previous_critbit) {
                (Some(n), Some(bit)) => {
                    self.inner_nodes[(!n) as usize].children[bit as usize] = new_root_node_handle;
                }
                _ => self.header.root_node = new_root_node_handle,
            }
'''),
    (CB, '''            let old_root_crit_bit = !new_leaf_crit_bit;

''', ''))
ref('x-cb-insert-helper',
    (CB, '''    #[inline(always)]
    pub fn get_callback_info(&self''', '''    fn replace_child(&mut self, parent: Option<(NodeHandle, bool)>, child: NodeHandle) {
        match parent {
            Some((h, bit)) => self.inner_nodes[(!h) as usize].children[bit as usize] = child,
            None => self.header.root_node = child,
        }
    }

    #[inline(always)]
    pub fn get_callback_info(&self'''),
    (CB, '''            if let Some(n) = parent_node {
                let node = &mut self.inner_nodes[(!n) as usize];
                node.children[previous_critbit.unwrap() as usize] = new_root_node_handle;
            } else {
                self.header.root_node = new_root_node_handle;
            }
            self.header.leaf_count += 1;
''', '''            let parent = parent_node.map(|n| (n, previous_critbit.unwrap()));
            self.replace_child(parent, new_root_node_handle);
            self.header.leaf_count += 1;
'''),
    (CB, '''        match grandparent_h {
            Some(h) => {
                let r = &mut self.inner_nodes[(!h) as usize];
                r.children[prev_crit_bit.unwrap() as usize] = other_child_h;
            }
            None => self.header.root_node = other_child_h,
        }
''', '''        let parent = grandparent_h.map(|h| (h, prev_crit_bit.unwrap()));
        self.replace_child(parent, other_child_h);
'''))
ref('x-cb-remove-match-root',
    (CB, '''        if let Some(leaf_copy) = remove_root {
            self.free_leaf(parent_h);

            self.header.root_node = 0;
            self.header.leaf_count = 0;
            return Some((leaf_copy, self.get_callback_info(parent_h)));
        }
        if let Node::Leaf = Node::from_handle(parent_h) {
            // The only order in the tree doesn't match the search key
            return None;
        }
''', '''        if matches!(Node::from_handle(parent_h), Node::Leaf) {
            let leaf_copy = remove_root?;
            self.header.leaf_count -= 1;
            self.header.root_node = 0;
            self.free_leaf(parent_h);
            return Some((leaf_copy, &self.callback_infos[parent_h as usize]));
        }
'''))
ref('x-cb-remove-pair',
    (CB, '''        let mut prev_crit_bit: Option<bool> = None;
        let mut remove_root = None;''', '''        let mut above: Option<(NodeHandle, bool)> = None;
        let mut remove_root = None;'''),
    (CB, '''        let mut grandparent_h: Option<NodeHandle> = None;
''', ''),
    (CB, '''                    grandparent_h = Some(parent_h);
                    parent_h = child_h;
                    child_h = grandchild_h;
                    prev_crit_bit = Some(crit_bit);
                    crit_bit = grandchild_crit_bit;
''', '''                    above = Some((parent_h, crit_bit));
                    parent_h = std::mem::replace(&mut child_h, grandchild_h);
                    crit_bit = grandchild_crit_bit;
'''),
    (CB, '''        match grandparent_h {
            Some(h) => {
                let r = &mut self.inner_nodes[(!h) as usize];
                r.children[prev_crit_bit.unwrap() as usize] = other_child_h;
            }
            None => self.header.root_node = other_child_h,
        }
''', '''        if let Some((h, bit)) = above {
            self.inner_nodes[(!h) as usize].children[bit as usize] = other_child_h;
        } else {
            self.header.root_node = other_child_h;
        }
'''))
ref('x-cb-other-child-if',
    (CB, '''        let other_child_h = self.inner_nodes[(!parent_h) as usize].children[!crit_bit as usize];
''', '''        let children = self.inner_nodes[(!parent_h) as usize].children;
        let other_child_h = if crit_bit { children[0] } else { children[1] };
'''))
ref('x-cb-key-order-id',
    (CB, '''                    if root_node.key == new_leaf.key {''', '''                    if root_node.order_id() == new_leaf.order_id() {'''))
ref('x-cb-order-id-or',
    (CB, '''            (self.key[0] as u128) + ((self.key[1] as u128) << 64)
''', '''            let [low, high] = self.key;
            (u128::from(high) << 64) | u128::from(low)
'''))
ref('x-cb-price-limb',
    (CB, '''        let res = Self::price_from_key(self.order_id());
''', '''        let res = self.key[1];
'''))
ref('x-cb-find-key',
    (CB, '''                    let n = self.inner_nodes[!node_handle as usize];
                    let common_prefix_len = (search_key ^ n.key).leading_zeros();
                    if common_prefix_len < n.prefix_len as u32 {
                        return None;
                    }
                    node_handle = n.walk_down(search_key).0;
''', '''                    let n = &self.inner_nodes[!node_handle as usize];
                    let shared = (n.key ^ search_key).leading_zeros() as u64;
                    if shared >= n.prefix_len {
                        let (next, _) = n.walk_down(search_key);
                        node_handle = next;
                    } else {
                        return None;
                    }
'''))
ref('x-cb-from-buffer-order',
    (CB, '''        let callback_info_len = std::mem::size_of::<C>();
        let leaf_size = LeafNode::LEN + callback_info_len;
        let capacity = (buf.len() - SlabHeader::LEN - 8 - leaf_size) / (leaf_size + InnerNode::LEN);

        if buf[0] != expected_tag as u8 {
            return Err(AoError::AccountTagMismatch.into());
        }
        let (_, rem) = buf.split_at_mut(8);
        let (header, rem) = rem.split_at_mut(SlabHeader::LEN);
''', '''        if buf[0] != expected_tag as u8 {
            return Err(ProgramError::from(AoError::AccountTagMismatch));
        }
        let slot = LeafNode::LEN + std::mem::size_of::<C>();
        let (header, rem) = buf[8..].split_at_mut(SlabHeader::LEN);
        let capacity = (rem.len() - slot) / (slot + InnerNode::LEN);
'''))
ref('x-cb-init-iter',
    (CB, '''        if asks_data[0] != AccountTag::Uninitialized as u8
            || bids_data[0] != AccountTag::Uninitialized as u8
        {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        asks_data[0] = AccountTag::Asks as u8;
        bids_data[0] = AccountTag::Bids as u8;
        Ok(())
''', '''        let fresh = AccountTag::Uninitialized as u8;
        if asks_data[0] == fresh && bids_data[0] == fresh {
            bids_data[0] = AccountTag::Bids as u8;
            asks_data[0] = AccountTag::Asks as u8;
            return Ok(());
        }
        Err(ProgramError::AccountAlreadyInitialized)
'''))
ref('x-cb-iter-next',
    (CB, '''    pub fn into_iter(self, price_ascending: bool) -> SlabIterator<'a, C> {
        SlabIterator {
            search_stack: if self.header.leaf_count == 0 {
                vec![]
            } else {
                vec![self.header.root_node]
            },
            slab: self,
            ascending: price_ascending,
        }
    }
''', '''    pub fn into_iter(self, price_ascending: bool) -> SlabIterator<'a, C> {
        let mut search_stack = Vec::new();
        if let Some(root) = self.root() {
            search_stack.push(root);
        }
        SlabIterator {
            search_stack,
            slab: self,
            ascending: price_ascending,
        }
    }
'''))
# processors
ref('x-p-mass-fold',
    ('processor/mass_cancel_orders.rs', '''    for order_id in params.order_ids {
        let slab''', '''    for order_id in params.order_ids.iter().copied() {
        let slab'''),
    ('processor/mass_cancel_orders.rs', '''        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
''', '''        let quote = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = total_quote_qty.checked_add(quote).ok_or(AoError::NumericalOverflow)?;
'''))
ref('x-p-consume-count',
    ('processor/consume_events.rs', '''    // Reward payout
    let capped_number_of_entries_consumed = std::cmp::min(
        event_queue.header.count,
        params.number_of_entries_to_consume,
    );

    // Pop Events
    event_queue.pop_n(params.number_of_entries_to_consume);
''', '''    let before = event_queue.len();
    event_queue.pop_n(params.number_of_entries_to_consume);
    let capped_number_of_entries_consumed = before - event_queue.len();
'''))
ref('x-p-tick-helper',
    ('processor/new_order.rs', '''    if params.limit_price % market_state.tick_size != 0 {
        return Err(AoError::InvalidLimitPrice.into());
    }

    if params.post_allowed && params.limit_price < market_state.tick_size {
        msg!(
            "Can't attempt to post an order of price less than market tick size to the orderbook!"
        );
        return Err(AoError::InvalidLimitPrice.into());
    }
''', '''    check_price(
        params.limit_price,
        params.post_allowed,
        market_state.tick_size,
    )?;
'''),
    ('processor/new_order.rs', '''fn check_accounts<''', '''fn check_price(price: u64, post_allowed: bool, tick: u64) -> ProgramResult {
    let ticks = price / tick;
    if price - ticks * tick != 0 || (post_allowed && ticks == 0) {
        return Err(AoError::InvalidLimitPrice.into());
    }
    Ok(())
}

fn check_accounts<'''))
ref('x-p-tick-zero',
    ('processor/new_order.rs', '''    if params.post_allowed && params.limit_price < market_state.tick_size {
''', '''    if params.post_allowed && params.limit_price == 0 {
'''))
ref('x-p-accounts-slice',
    ('processor/cancel_order.rs', '''        let accounts_iter = &mut accounts.iter();

        let a = Self {
            market: next_account_info(accounts_iter)?,
            event_queue: next_account_info(accounts_iter)?,
            bids: next_account_info(accounts_iter)?,
            asks: next_account_info(accounts_iter)?,
        };
        Ok(a)
''', '''        let mut iter = accounts.iter();
        let market = next_account_info(&mut iter)?;
        let event_queue = next_account_info(&mut iter)?;
        let bids = next_account_info(&mut iter)?;
        let asks = next_account_info(&mut iter)?;
        Ok(Self {
            market,
            event_queue,
            bids,
            asks,
        })
'''))
ref('x-p-close-total',
    ('processor/close_market.rs', '''    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;
''', '''    let freed = [
        **market_lamports,
        **bids_lamports,
        **asks_lamports,
        **event_queue_lamports,
    ];
    **target_lamports += freed.iter().sum::<u64>();
'''))
ref('x-p-close-take',
    ('processor/close_market.rs', '''    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;

    **market_lamports = 0;
    **bids_lamports = 0;
    **asks_lamports = 0;
    **event_queue_lamports = 0;
''', '''    **target_lamports += std::mem::take(&mut **market_lamports)
        + std::mem::take(&mut **bids_lamports)
        + std::mem::take(&mut **asks_lamports)
        + std::mem::take(&mut **event_queue_lamports);
'''))
ref('x-p-create-match',
    ('processor/create_market.rs', '''    if min_base_order_size == 0 || tick_size == 0 {
        msg!("min_base_order_size and tick_size must be > 0");
        return Err(ProgramError::InvalidArgument);
    }
''', '''    match (min_base_order_size, tick_size) {
        (0, _) | (_, 0) => {
            msg!("min_base_order_size and tick_size must be > 0");
            return Err(ProgramError::InvalidArgument);
        }
        _ => (),
    }
'''))
ref('x-p-owner-bool',
    (UT, '''    if account.owner.to_bytes() != owner {
        return Err(error);
    }
    Ok(())
''', '''    let actual = account.owner.to_bytes();
    (&actual[..] == owner).then(|| ()).ok_or(error)
'''))
ref('x-p-round-rem',
    (UT, '''        Side::Bid => tick_size * (limit_price / tick_size),
''', '''        Side::Bid => limit_price - limit_price % tick_size,
'''))
ref('x-p-split-first',
    ('processor.rs', '''    let instruction =
        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;
    let instruction_data = &instruction_data[1..];
''', '''    let (tag, instruction_data) = instruction_data.split_at(1);
    let instruction =
        FromPrimitive::from_u8(tag[0]).ok_or(ProgramError::InvalidInstructionData)?;
'''))
ref('x-p-dispatch-and-then',
    ('processor.rs', '''            let accounts = new_order::Accounts::parse(accounts)?;
            let params = new_order::Params::<C>::try_from_slice(instruction_data)
                .map_err(|_| ProgramError::InvalidInstructionData)?;
            return new_order::process(program_id, accounts, params).map(Some);
''', '''            let accounts = new_order::Accounts::parse(accounts)?;
            let params = match new_order::Params::<C>::try_from_slice(instruction_data) {
                Ok(p) => p,
                Err(_) => return Err(ProgramError::InvalidInstructionData),
            };
            let summary = new_order::process(program_id, accounts, params)?;
            return Ok(Some(summary));
'''))


# ------------------------------------------------------------------ the TypeScript client
def js(id, *edits):
    ref(id, *edits, base='js/src/')


SL, QU, MS, RW, BI, UT = 'slab.ts', 'event_queue.ts', 'market_state.ts', 'raw_instructions.ts', 'bindings.ts', 'utils.ts'
js('js-capacity-trunc', (SL, 'const capacity = Math.floor(', 'const capacity = Math.trunc('))
js('js-capacity-helper', (SL, """    const capacity = Math.floor(
      (arg.buffer.length - SlabHeader.LEN - leafSize) /
        (leafSize + InnerNode.LEN)
    );""", """    const capacity = slabCapacity(arg.buffer.length, arg.callBackInfoLen);"""),
   (SL, 'export interface LeafNodeRef', """function slabCapacity(bytes: number, callBackInfoLen: number): number {
  const perLeaf = LeafNode.LEN + callBackInfoLen;
  const usable = bytes - SlabHeader.LEN - perLeaf;
  return (usable - (usable % (perLeaf + InnerNode.LEN))) / (perLeaf + InnerNode.LEN);
}

export interface LeafNodeRef"""))
js('js-subarray', (SL, 'arg.buffer.slice(', 'arg.buffer.subarray(', 'all'), (SL, 'Buffer.slice(', 'Buffer.subarray(', 'all'))
js('js-const-offsets', (SL, 'let innerNodesBufferOffset', 'const innerNodesBufferOffset'), (SL, 'let leavesBuffer', 'const leavesBuffer'), (SL, 'let callbackInfoBufferOffset', 'const callbackInfoBufferOffset'))
js('js-invert-handle', (SL, 'let index = new BN(handle).notn(32).toNumber();', 'const index = ~handle >>> 0;'))
js('js-invert-sub', (SL, 'let index = new BN(handle).notn(32).toNumber();', 'const index = 0xffffffff - handle;'))
js('js-isleaf-compare', (SL, 'return (handle & Slab.INNER_FLAG) == 0;', 'return handle < 2 ** 31;'))
js('js-isleaf-shift', (SL, 'return (handle & Slab.INNER_FLAG) == 0;', 'return handle >>> 31 === 0;'))
js('js-getnode-else', (SL, """    if (isLeaf(handle)) {
      let buff = this.leafBuffer.slice(
        handle * LeafNode.LEN,
        (handle + 1) * LeafNode.LEN
      );
      return deserializeUnchecked(LeafNode.schema, LeafNode, buff) as LeafNode;
    }
    let index = new BN(handle).notn(32).toNumber();
    let buff = this.innerNodeBuffer.slice(
      index * InnerNode.LEN,
      (index + 1) * InnerNode.LEN
    );
    return deserializeUnchecked(InnerNode.schema, InnerNode, buff) as InnerNode;""", """    if (!isLeaf(handle)) {
      const start = new BN(handle).notn(32).toNumber() * InnerNode.LEN;
      const bytes = this.innerNodeBuffer.slice(start, start + InnerNode.LEN);
      return deserializeUnchecked(InnerNode.schema, InnerNode, bytes);
    } else {
      const start = handle * LeafNode.LEN;
      const bytes = this.leafBuffer.slice(start, start + LeafNode.LEN);
      return deserializeUnchecked(LeafNode.schema, LeafNode, bytes);
    }"""))
js('js-find-testn', (SL, """        const critBitMasks = new BN(1).shln(127 - node.prefixLen.toNumber());
        let critBit = key.and(critBitMasks).isZero() ? 0 : 1;
        nodeHandle""", """        const critBit = key.testn(127 - node.prefixLen.toNumber()) ? 1 : 0;
        nodeHandle"""))
js('js-find-shr', (SL, """        const critBitMasks = new BN(1).shln(127 - node.prefixLen.toNumber());
        let critBit = key.and(critBitMasks).isZero() ? 0 : 1;
        nodeHandle""", """        const critBit = key.shrn(127 - node.prefixLen.toNumber()).isOdd() ? 1 : 0;
        nodeHandle"""))
js('js-find-eq', (SL, """        if (node.key.cmp(key) !== 0) {
          return undefined;
        }
        return node;""", """        return node.key.eq(key) ? node : undefined;"""))
js('js-find-no-prefix', (SL, """        let common_prefix_len = 128 - node.key.xor(key).bitLength();
        if (common_prefix_len < node.prefixLen.toNumber()) {
          return undefined;
        }
""", ""))
js('js-find-for', (SL, """    let nodeHandle = this.header.rootNode;
    while (true) {
      let node = this.getNode(nodeHandle);
      if (node instanceof InnerNode) {""", """    let node = this.getNode(this.header.rootNode);
    for (;;) {
      if (node instanceof InnerNode) {"""), (SL, "        nodeHandle = node.children[critBit];", "        node = this.getNode(node.children[critBit]);"))
js('js-find-prefix-helper', (SL, """        let common_prefix_len = 128 - node.key.xor(key).bitLength();
        if (common_prefix_len < node.prefixLen.toNumber()) {""", """        if (!sharesPrefix(node, key)) {"""),
   (SL, 'export interface LeafNodeRef', """function sharesPrefix(node: InnerNode, key: BN): boolean {
  return 128 - node.key.xor(key).bitLength() >= node.prefixLen.toNumber();
}

export interface LeafNodeRef"""))
js('js-items-two-push', (SL, """          stack.push(node.children[0], node.children[1]);""", """          stack.push(node.children[0]);
          stack.push(node.children[1]);"""))
js('js-items-destructure', (SL, """        if (descending) {
          stack.push(node.children[0], node.children[1]);
        } else {
          stack.push(node.children[1], node.children[0]);
        }""", """        const [low, high] = node.children;
        if (descending) {
          stack.push(low, high);
        } else {
          stack.push(high, low);
        }"""))
js('js-items-recursive', (SL, """    const stack = [this.header.rootNode];
    while (stack.length > 0) {
      const nodeHandle = stack.pop() as number;
      const node = this.getNode(nodeHandle);
      if (node instanceof LeafNode) {
        yield {
          leafNode: node,
          callbackInfo: this.getCallBackInfo(nodeHandle) as Buffer,
        };
      } else if (node instanceof InnerNode) {
        if (descending) {
          stack.push(node.children[0], node.children[1]);
        } else {
          stack.push(node.children[1], node.children[0]);
        }
      }
    }
  }
""", """    yield* this.below(this.header.rootNode, descending);
  }

  private *below(nodeHandle: number, descending: boolean): Generator<LeafNodeRef> {
    const node = this.getNode(nodeHandle);
    if (node instanceof LeafNode) {
      yield {
        leafNode: node,
        callbackInfo: this.getCallBackInfo(nodeHandle) as Buffer,
      };
    } else {
      const first = descending ? 1 : 0;
      yield* this.below(node.children[first], descending);
      yield* this.below(node.children[1 - first], descending);
    }
  }
"""))
js('js-items-index', (SL, """        if (descending) {
          stack.push(node.children[0], node.children[1]);
        } else {
          stack.push(node.children[1], node.children[0]);
        }""", """        const near = descending ? 1 : 0;
        stack.push(node.children[1 - near], node.children[near]);"""))
js('js-items-isleaf', (SL, """      const node = this.getNode(nodeHandle);
      if (node instanceof LeafNode) {
        yield {
          leafNode: node,""", """      const node = this.getNode(nodeHandle);
      if (isLeaf(nodeHandle)) {
        yield {
          leafNode: node as LeafNode,"""))
js('js-items-length', (SL, 'while (stack.length > 0) {', 'while (stack.length) {'))
js('js-top-ge', (SL, 'if (minMaxOrders.length === maxNbOrders) {', 'if (minMaxOrders.length >= maxNbOrders) {'))
js('js-top-early', (SL, """      if (minMaxOrders.length === maxNbOrders) {
        break;
      }
      minMaxOrders.push(leafNode);
    }""", """      minMaxOrders.push(leafNode);
      if (minMaxOrders.length >= maxNbOrders) {
        break;
      }
    }"""), (SL, '    const minMaxOrders: LeafNodeRef[] = [];', """    const minMaxOrders: LeafNodeRef[] = [];
    if (maxNbOrders <= 0) {
      return minMaxOrders;
    }"""))
js('js-top-counter', (SL, """    for (const leafNode of this.items(max)) {
      if (minMaxOrders.length === maxNbOrders) {
        break;
      }
      minMaxOrders.push(leafNode);
    }""", """    let left = maxNbOrders;
    for (const leafNode of this.items(max)) {
      if (left === 0) {
        break;
      }
      left -= 1;
      minMaxOrders.push(leafNode);
    }"""))
js('js-depth-while', (SL, """    while (true) {
      const current = stack.pop();
      if (current === undefined) break;
""", """    while (stack.length > 0) {
      const current = stack.pop() as number;
"""))
js('js-depth-else', (SL, """      }
      if (node instanceof InnerNode) {
        stack.push(node.children[increasing ? 1 : 0]);
        stack.push(node.children[increasing ? 0 : 1]);
      }""", """      } else {
        const near = increasing ? 0 : 1;
        stack.push(node.children[1 - near], node.children[near]);
      }"""))
js('js-depth-items', (SL, """    let raw: BN[] = [];
    let stack = [this.header.rootNode];
    while (true) {
      const current = stack.pop();
      if (current === undefined) break;
      const node = this.getNode(current);
      if (node instanceof LeafNode) {
        const leafPrice = node.getPrice();
        if (""", """    let raw: BN[] = [];
    for (const { leafNode: node } of this.items(!increasing)) {
        const leafPrice = node.getPrice();
        if ("""), (SL, """          raw.push(leafPrice);
        }
      }
      if (node instanceof InnerNode) {
        stack.push(node.children[increasing ? 1 : 0]);
        stack.push(node.children[increasing ? 0 : 1]);
      }
    }""", """          raw.push(leafPrice);
        }
    }"""))
js('js-depth-levels', (SL, """    let raw: BN[] = [];
    let stack""", """    const result: Price[] = [];
    let stack"""), (SL, """        if (raw[raw.length - 1]?.eq(leafPrice)) {
          const idx = raw.length - 2;
          raw[idx].iadd(node.baseQuantity);
        } else if (raw.length === 2 * depth) {""", """        const last = result[result.length - 1];
        if (last !== undefined && last.price.eq(leafPrice)) {
          last.size = last.size.add(node.baseQuantity);
        } else if (result.length === depth) {"""), (SL, """          raw.push(node.baseQuantity);
          raw.push(leafPrice);""", """          result.push({ size: node.baseQuantity, price: leafPrice });"""), (SL, """    let result: Price[] = [];
    for (let i = 0; i < raw.length / 2; i++) {
      result.push({
        size: raw[2 * i],
        price: raw[2 * i + 1],
      });
    }
    return result;
  }

  /**
   * @param callBackInfoPt""", """    return result;
  }

  /**
   * @param callBackInfoPt"""))
js('js-depth-add', (SL, 'raw[idx].iadd(node.baseQuantity);', 'raw[idx] = raw[idx].add(node.baseQuantity);'))
js('js-depth-map', (SL, """    let result: Price[] = [];
    for (let i = 0; i < raw.length / 2; i++) {
      result.push({
        size: raw[2 * i],
        price: raw[2 * i + 1],
      });
    }
    return result;
  }

  /**
   * @param callBackInfoPt""", """    const result: Price[] = [];
    for (let i = 0; i < raw.length; i += 2) {
      const size = raw[i];
      const price = raw[i + 1];
      result.push({ size, price });
    }
    return result;
  }

  /**
   * @param callBackInfoPt"""))
js('js-callback-offset', (SL, """    return this.callbackInfoBuffer.slice(
      nodeHandle * this.callBackInfoLen,
      (nodeHandle + 1) * this.callBackInfoLen
    );""", """    const offset = nodeHandle * this.callBackInfoLen;
    return this.callbackInfoBuffer.slice(offset, offset + this.callBackInfoLen);"""))
js('js-queue-floor', (QU, """    let capacity =
      (data.length - EventQueueHeader.LEN) /
      (EventFill.LEN + 2 * callBackInfoLen);""", """    const capacity = Math.floor(
      (data.length - EventQueueHeader.LEN) /
        (EventFill.LEN + 2 * callBackInfoLen)
    );"""))
js('js-queue-buffer', (QU, """      eventsBuffer: [...eventsBuffer],
      callbackInfosBuffer: [...callbackInfosBuffer],""", """      eventsBuffer: Array.from(eventsBuffer),
      callbackInfosBuffer: Array.from(callbackInfosBuffer),"""))
js('js-parse-event-if', (QU, """    switch (data[0]) {
      case EventType.Fill: {
        let event""", """    if (data[0] === EventType.Fill) {
        let event"""), (QU, """        return event;
      }
      case EventType.Out: {
        let event""", """        return event;
      }
    if (data[0] === EventType.Out) {
        let event"""), (QU, """        return event;
      }
      default:
        throw new Error("Invalid data provided");
    }
  }
""", """        return event;
    }
    throw new Error("Invalid data provided");
  }
"""))
js('js-parse-event-helper', (QU, """        let makerOffset = 2 * idx * this.callBackInfoLen;
        let takerOffset = (2 * idx + 1) * this.callBackInfoLen;
        event.makerCallbackInfo = this.callbackInfosBuffer.slice(
          makerOffset,
          makerOffset + this.callBackInfoLen
        );
        event.takerCallbackInfo = this.callbackInfosBuffer.slice(
          takerOffset,
          takerOffset + this.callBackInfoLen
        );""", """        event.makerCallbackInfo = this.callbackCell(2 * idx);
        event.takerCallbackInfo = this.callbackCell(2 * idx + 1);"""), (QU, """        let offset = 2 * idx * this.callBackInfoLen;
        event.callbackInfo = this.callbackInfosBuffer.slice(
          offset,
          offset + this.callBackInfoLen
        );""", """        event.callbackInfo = this.callbackCell(2 * idx);"""), (QU, """  /**
   * Retrieves the event at position""", """  private callbackCell(i: number) {
    return this.callbackInfosBuffer.slice(
      i * this.callBackInfoLen,
      (i + 1) * this.callBackInfoLen
    );
  }

  /**
   * Retrieves the event at position"""))
js('js-peek-wrap', (QU, """    return this.parseEvent((idx + this.header.head.toNumber()) % len);""", """    let slot = idx + this.header.head.toNumber();
    if (slot >= len) {
      slot -= len;
    }
    return this.parseEvent(slot);"""))
js('js-fills-loop', (QU, """    return [...Array(n).keys()]
      .map((e) => this.peekAt(e))
      .filter((e) => e instanceof EventFill);""", """    const fills: EventFill[] = [];
    for (let i = 0; i < n; i++) {
      const event = this.peekAt(i);
      if (event instanceof EventFill) {
        fills.push(event);
      }
    }
    return fills;"""))
js('js-fills-from', (QU, """    return [...Array(n).keys()]
      .map((e) => this.peekAt(e))
      .filter((e) => e instanceof EventFill);""", """    return Array.from({ length: n }, (_, i) => this.peekAt(i)).filter(
      (e) => e instanceof EventFill
    );"""))
js('js-fills-slice', (QU, """    const n = limit
      ? Math.min(limit, this.header.count.toNumber())
      : this.header.count.toNumber();
    return [...Array(n).keys()]
      .map((e) => this.peekAt(e))
      .filter""", """    const count = this.header.count.toNumber();
    return [...Array(count).keys()]
      .slice(0, limit || count)
      .map((e) => this.peekAt(e))
      .filter"""))
js('js-fills-late-slice', (QU, """    const n = limit
      ? Math.min(limit, this.header.count.toNumber())
      : this.header.count.toNumber();
    return [...Array(n).keys()]
      .map((e) => this.peekAt(e))
      .filter""", """    const count = this.header.count.toNumber();
    return [...Array(count).keys()]
      .map((e) => this.peekAt(e))
      .slice(0, limit ? limit : count)
      .filter"""))
js('js-fills-n', (QU, """    const n = limit
      ? Math.min(limit, this.header.count.toNumber())
      : this.header.count.toNumber();
""", """    let n = this.header.count.toNumber();
    if (limit && limit < n) {
      n = limit;
    }
"""))
js('js-price-shr', (UT, 'key.div(new BN(2).pow(new BN(64)))', 'key.shrn(64)'))
js('js-price-helper', (SL, 'return this.key.shrn(64);', 'return getPriceFromKey(this.key);'), (SL, 'import { Price } from "./types";', 'import { Price } from "./types";\nimport { getPriceFromKey } from "./utils";'))
js('js-len-computed', (SL, 'static LEN: number = 40;', 'static LEN: number = 8 + 8 * 4;'), (QU, 'static LEN: number = 32;', 'static LEN: number = 4 * 8;'))
js('js-schema-const', (MS, """  static schema: Schema = new Map([
    [
      MarketState,
      {
        kind: "struct",
        fields: [
          ["tag", "u64"],
          ["eventQueue", [32]],
          ["bids", [32]],
          ["asks", [32]],""", """  static KEY = [32];
  static schema: Schema = new Map([
    [
      MarketState,
      {
        kind: "struct",
        fields: [
          ["tag", "u64"],
          ["eventQueue", MarketState.KEY],
          ["bids", MarketState.KEY],
          ["asks", MarketState.KEY],"""))
js('js-market-helper', (MS, """    const bidsInfo = await connection.getAccountInfo(this.bids, commitment);
    if (!bidsInfo?.data) {
      throw new Error("Invalid bids account");
    }
    return Slab.deserialize(bidsInfo.data, this.callbackInfoLen);""", """    return this.loadSlab(connection, this.bids, "bids", commitment);"""), (MS, """    const asksInfo = await connection.getAccountInfo(this.asks, commitment);
    if (!asksInfo?.data) {
      throw new Error("Invalid asks account");
    }
    return Slab.deserialize(asksInfo.data, this.callbackInfoLen);
  }""", """    return this.loadSlab(connection, this.asks, "asks", commitment);
  }

  private async loadSlab(
    connection: Connection,
    address: PublicKey,
    name: string,
    commitment?: Commitment
  ) {
    const info = await connection.getAccountInfo(address, commitment);
    if (!info?.data) {
      throw new Error(`Invalid ${name} account`);
    }
    return Slab.deserialize(info.data, this.callbackInfoLen);
  }"""))
js('js-create-helper', (BI, """  // Bids account
  const bids = new Keypair();
  const slabSize = Slab.computeAllocationSize(orderCapacity, callbackInfoLen);
  const createBidsAccount = SystemProgram.createAccount({
    fromPubkey: feePayer,
    lamports: await connection.getMinimumBalanceForRentExemption(slabSize),
    newAccountPubkey: bids.publicKey,
    programId,
    space: slabSize,
  });
  signers.push(bids);
  txInstructions.push(createBidsAccount);

  // Asks account
  const asks = new Keypair();
  const createAsksAccount = SystemProgram.createAccount({
    fromPubkey: feePayer,
    lamports: await connection.getMinimumBalanceForRentExemption(slabSize),
    newAccountPubkey: asks.publicKey,
    programId,
    space: slabSize,
  });
  signers.push(asks);
  txInstructions.push(createAsksAccount);
""", """  const slabSize = Slab.computeAllocationSize(orderCapacity, callbackInfoLen);
  const owner = programId;
  const addBook = async () => {
    const keypair = new Keypair();
    signers.push(keypair);
    txInstructions.push(
      SystemProgram.createAccount({
        fromPubkey: feePayer,
        lamports: await connection.getMinimumBalanceForRentExemption(slabSize),
        newAccountPubkey: keypair.publicKey,
        programId: owner,
        space: slabSize,
      })
    );
    return keypair;
  };
  const bids = await addBook();
  const asks = await addBook();
"""))
js('js-create-default', (BI, """  programId?: PublicKey
): Promise<PrimedTransaction> => {
  if (programId === undefined) {
    programId = AAOB_ID;
  }
""", """  programId: PublicKey = AAOB_ID
): Promise<PrimedTransaction> => {
"""))
js('js-create-size-inline', (BI, """  const eventQueueSize = EventQueue.computeAllocationSize(
    eventCapacity,
    callbackInfoLen
  );
""", """  const eventQueueSize =
    EventQueue.computeAllocationSize(0, callbackInfoLen) +
    eventCapacity * (EventQueue.computeAllocationSize(1, callbackInfoLen) - EventQueue.computeAllocationSize(0, callbackInfoLen));
"""))
js('js-alloc-reorder', (SL, """    return (
      SlabHeader.LEN +
      LeafNode.LEN +
      callbackInfoLen +
      (desiredOrderCapacity - 1) *
        (LeafNode.LEN + InnerNode.LEN + callbackInfoLen)
    );""", """    const leaves = desiredOrderCapacity * (LeafNode.LEN + callbackInfoLen);
    const innerNodes = (desiredOrderCapacity - 1) * InnerNode.LEN;
    return SlabHeader.LEN + leaves + innerNodes;"""))
js('js-keys-literal', (RW, """    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,""", """    let keys: AccountKey[] = [
      { pubkey: market, isSigner: false, isWritable: true },
      { pubkey: eventQueue, isSigner: false, isWritable: true },
    ];
    keys.push({
      pubkey: authority,"""))
js('js-keys-readonly-market', (RW, """    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,""", """    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: false,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,"""))
js('js-instr-map', (RW, """    const data = Buffer.from(this.serialize());
    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,
      isSigner: true,
      isWritable: false,
    });
    keys.push({
      pubkey: rewardTarget,
      isSigner: false,
      isWritable: true,
    });""", """    const data = Buffer.from(this.serialize());
    const keys: AccountKey[] = [market, eventQueue, authority, rewardTarget].map(
      (pubkey, i) => ({ pubkey, isSigner: i === 2, isWritable: i !== 2 })
    );"""))
js('js-tag-field', (RW, """export class cancelOrderInstruction {
  tag: number;""", """export class cancelOrderInstruction {
  static TAG = 3;
  tag: number;"""), (RW, 'this.tag = 3;', 'this.tag = cancelOrderInstruction.TAG;'))
js('js-header-tag-type', (QU, 'this.tag = arg.tag.toNumber() as AccountTag;', 'this.tag = Number(arg.tag.toString()) as AccountTag;'))
# ------------------------------------------------------------------ assertions and panics that cannot be reached
ref('pa-new-order-asserts',
    (NO, """            if base_trade_qty == 0 {
                break;
            }
""", """            if base_trade_qty == 0 {
                break;
            }
            assert!(base_trade_qty <= offer_size && base_trade_qty <= base_qty_remaining);
            debug_assert!(match_limit > 0);
"""),
    (NO, """                    .ok_or(AoError::NumericalOverflow)?;

            if quote_maker_qty == 0 {
                break;
            }
""", """                    .ok_or(AoError::NumericalOverflow)?;

            if quote_maker_qty == 0 {
                break;
            }
            assert_ne!(quote_qty_remaining, 0);
""") if False else (NO, """            let maker_callback_info = &opposite_slab""", """            assert_ne!(quote_qty_remaining, 0, "a fill has a worth");
            let maker_callback_info = &opposite_slab"""))
ref('pa-convert-expect',
    (NO, """            .map(|q| std::cmp::min(q, quote_qty_remaining))
            .ok_or(AoError::NumericalOverflow)?;""", """            .map(|q| std::cmp::min(q, quote_qty_remaining))
            .expect("what the remaining quote buys is worth at most that");"""))
ref('pa-queue-unreachable',
    (EQ, """    pub(crate) fn full(&self) -> bool {
        self.header.count as usize == self.events.len()
    }""", """    pub(crate) fn full(&self) -> bool {
        match (self.header.count as usize).cmp(&self.events.len()) {
            std::cmp::Ordering::Less => false,
            std::cmp::Ordering::Equal => true,
            std::cmp::Ordering::Greater => unreachable!("more events than slots"),
        }
    }"""))
ref('pa-pop-asserts',
    (EQ, """        self.header.count -= capped_number_of_entries_to_pop;
""", """        assert!(capped_number_of_entries_to_pop <= self.header.count);
        self.header.count = self
            .header
            .count
            .checked_sub(capped_number_of_entries_to_pop)
            .expect("capped");
        assert!(!self.events.is_empty());
"""))
ref('pa-insert-first-unwrap',
    (CB, """        if self.header.leaf_free_list_len == 0 {
            if self.header.leaf_bump_index""", """        debug_assert!(self.header.leaf_free_list_len <= self.header.leaf_bump_index);
        if self.header.leaf_free_list_len == 0 {
            if self.header.leaf_bump_index"""))
ref('pa-close-expect',
    ('processor/close_market.rs', """    if !orderbook_state.is_empty() {""", """    assert_eq!(
        orderbook_state.is_empty(),
        orderbook_state.get_spread() == (None, None)
    );
    if !orderbook_state.is_empty() {"""))
ref('pa-mass-while-index',
    ('processor/mass_cancel_orders.rs', """    for order_id in params.order_ids {
""", """    let mut next = 0;
    while next < params.order_ids.len() {
        let order_id = params.order_ids[next];
        next += 1;
"""))
ref('pa-mass-peek',
    ('processor/mass_cancel_orders.rs', """    for order_id in params.order_ids {
""", """    let mut ids = params.order_ids.iter().copied().peekable();
    while ids.peek().is_some() {
        let order_id = ids.next().unwrap();
"""))
ref('pa-push-slot',
    (EQ, """        self.events[event_idx] = *generic_event;
""", """        *self
            .events
            .get_mut(event_idx)
            .expect("the index is taken modulo the capacity") = *generic_event;
"""))
ref('pa-tag-index',
    ('processor.rs', """    let instruction =
        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;
    let instruction_data = &instruction_data[1..];""", """    let (code, instruction_data) = instruction_data.split_first().unwrap();
    let instruction =
        FromPrimitive::from_u8(*code).ok_or(ProgramError::InvalidInstructionData)?;"""))

# ------------------------------------------------------------------ a further round
NOP = 'processor/new_order.rs'
PMC = 'processor/mass_cancel_orders.rs'
PCA = 'processor/cancel_order.rs'
PCL = 'processor/close_market.rs'
PCO = 'processor/consume_events.rs'
PCR = 'processor/create_market.rs'
# a struct that keeps the amounts left
ref('y-no-remaining-struct',
    (NO, IMPL, '''
struct Remaining {
    base: u64,
    quote: u64,
}

impl Remaining {
    fn take(&mut self, base: u64, quote: u64) {
        self.base -= base;
        self.quote -= quote;
    }
}
''' + IMPL),
    (NO, '''            base_qty_remaining -= base_trade_qty;
            quote_qty_remaining -= quote_maker_qty;
''', '''            let mut remaining = Remaining {
                base: base_qty_remaining,
                quote: quote_qty_remaining,
            };
            remaining.take(base_trade_qty, quote_maker_qty);
            base_qty_remaining = remaining.base;
            quote_qty_remaining = remaining.quote;
'''))
ref('y-no-size-by-sort',
    (NO, '''            let base_trade_qty = offer_size
                .min(base_qty_remaining)
                .min(fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX));
''', '''            let mut base_trade_qty = match fp32_div(quote_qty_remaining, trade_price) {
                Some(affordable) => affordable,
                None => u64::MAX,
            };
            if base_qty_remaining < base_trade_qty {
                base_trade_qty = base_qty_remaining;
            }
            if offer_size < base_trade_qty {
                base_trade_qty = offer_size;
            }
'''))
ref('y-no-out-constructor',
    (NO, IMPL, '''
fn out_event(side: Side, order_id: u128, base_size: u64) -> OutEvent {
    OutEvent {
        side: side as u8,
        #[cfg(target_os = "solana")]
        order_id,
        #[cfg(not(target_os = "solana"))]
        order_id: [order_id as u64, (order_id >> 64) as u64],
        base_size,
        tag: EventTag::Out as u8,
        _padding: [0; 14],
    }
}
''' + IMPL),
    (NO, '''                #[cfg(target_os = "solana")]
                let order_id = best_offer_id;
                #[cfg(not(target_os = "solana"))]
                let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                let out_event = OutEvent {
                    side: cur_side as u8,
                    order_id,
                    base_size: best_bo_ref.base_quantity,
                    tag: EventTag::Out as u8,
                    _padding: [0; 14],
                };
''', '''                let out_event = out_event(cur_side, best_offer_id, best_bo_ref.base_quantity);
'''))
ref('y-no-stop-flag',
    (NO, '''            if base_trade_qty == 0 {
                break;
            }
''', '''            let nothing_to_trade = base_trade_qty == 0;
            if nothing_to_trade {
                break;
            }
'''),
    (NO, '''        loop {
            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''        while match_limit != 0 {
            let best_bo_h'''))
ref('y-no-self-trade-match-order',
    (NO, '''            if self_trade_behavior != SelfTradeBehavior::DecrementTake {
                let order_would_self_trade = callback_info.as_callback_id()
                    == opposite_slab.callback_infos[best_bo_h as usize].as_callback_id();
                if order_would_self_trade {''', '''            {
                let order_would_self_trade = self_trade_behavior
                    != SelfTradeBehavior::DecrementTake
                    && opposite_slab.callback_infos[best_bo_h as usize].as_callback_id()
                        == callback_info.as_callback_id();
                if order_would_self_trade {'''))
ref('y-no-post-nested',
    (NO, '''        if crossed || !post_allowed || base_qty_to_post < min_base_order_size {
            return''', '''        let can_post = if crossed {
            false
        } else if post_allowed {
            base_qty_to_post >= min_base_order_size
        } else {
            false
        };
        if !can_post {
            return'''))
ref('y-no-summary-fn',
    (NO, IMPL, '''
fn summarize(
    caps: (u64, u64),
    remaining: (u64, u64),
    posted: Option<(u128, u64)>,
) -> OrderSummary {
    OrderSummary {
        posted_order_id: posted.map(|(id, _)| id),
        total_base_qty: caps.0 - remaining.0,
        total_quote_qty: caps.1 - remaining.1,
        total_base_qty_posted: posted.map_or(0, |(_, base)| base),
    }
}
''' + IMPL),
    (NO, '''            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: max_base_qty - base_qty_remaining,
                total_quote_qty: max_quote_qty - quote_qty_remaining,
                total_base_qty_posted: 0,
            });
        }

        let new_leaf_order_id''', '''            return Ok(summarize(
                (max_base_qty, max_quote_qty),
                (base_qty_remaining, quote_qty_remaining),
                None,
            ));
        }

        let new_leaf_order_id'''),
    (NO, '''        Ok(OrderSummary {
            posted_order_id: Some(new_leaf_order_id),
            total_base_qty: max_base_qty - base_qty_remaining,
            total_quote_qty: max_quote_qty - quote_qty_remaining,
            total_base_qty_posted: base_qty_to_post,
        })''', '''        Ok(summarize(
            (max_base_qty, max_quote_qty),
            (base_qty_remaining, quote_qty_remaining),
            Some((new_leaf_order_id, base_qty_to_post)),
        ))'''))
ref('y-no-boot-compare-ids',
    (NO, '''            let should_boot = match side {
                Side::Bid => boot_candidate_price < limit_price,
                Side::Ask => boot_candidate_price > limit_price,
            };
            if should_boot {''', '''            let ordering = limit_price.cmp(&boot_candidate_price);
            let should_boot = match side {
                Side::Bid => ordering == std::cmp::Ordering::Greater,
                Side::Ask => ordering == std::cmp::Ordering::Less,
            };
            if should_boot {'''))
ref('y-no-crossed-cmp',
    (NO, '''            crossed = match side {
                Side::Bid => limit_price >= trade_price,
                Side::Ask => limit_price <= trade_price,
            };
''', '''            crossed = trade_price == limit_price || (trade_price < limit_price) == (side == Side::Bid);
'''))
ref('y-no-find-bbo-nested',
    (NO, '''            let best_bo_h = match self.find_bbo(side.opposite()) {
                None => {
                    crossed = false;
                    break;
                }
                Some(h) => h,
            };
''', '''            let best = self.find_bbo(side.opposite());
            if best.is_none() {
                crossed = false;
                break;
            }
            let best_bo_h = best.unwrap();
'''))
ref('y-no-insert-or-else',
    (NO, '''        *self.get_tree(side).get_callback_info_mut(k) = callback_info;
''', '''        let tree = self.get_tree(side);
        tree.callback_infos[k as usize] = callback_info;
'''))
ref('y-no-post-quote-var',
    (NO, '''        base_qty_remaining -= base_qty_to_post;
        quote_qty_remaining -= match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        }
        .ok_or(AoError::NumericalOverflow)?;
''', '''        let round = if side == Side::Bid {
            fp32_mul_ceil
        } else {
            fp32_mul_floor
        };
        let posted_quote = round(base_qty_to_post, limit_price).ok_or(AoError::NumericalOverflow)?;
        quote_qty_remaining -= posted_quote;
        base_qty_remaining -= base_qty_to_post;
'''))
# ---- queue
ref('y-eq-push-parts',
    (EQ, '''        if let Some(c) = maker_callback_info {
            self.callback_infos[event_idx * 2] = c.clone();
        }

        if let Some(c) = taker_callback_info {
            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
''', '''        let infos = &mut self.callback_infos[event_idx * 2..event_idx * 2 + 2];
        if let Some(c) = maker_callback_info {
            infos[0] = c.clone();
        }
        if let Some(c) = taker_callback_info {
            infos[1] = c.clone();
        }
'''))
ref('y-eq-push-split',
    (EQ, '''        if self.full() {
            return Err(event);
        }
        let generic_event = event.to_generic();
        let event_idx =
            (self.header.head as usize + self.header.count as usize) % self.events.len();
        self.events[event_idx] = *generic_event;

        self.header.count += 1;
''', '''        if self.full() {
            return Err(event);
        }
        let event_idx = self.next_slot();
        self.header.count += 1;
        self.events[event_idx] = *event.to_generic();
'''),
    (EQ, '''    fn gen_seq_num(&mut self) -> u64 {''', '''    fn next_slot(&self) -> usize {
        let EventQueueHeader { head, count, .. } = *self.header;
        (head as usize + count as usize) % self.events.len()
    }

    fn gen_seq_num(&mut self) -> u64 {'''))
ref('y-eq-pop-branch',
    (EQ, '''        let capped_number_of_entries_to_pop =
            std::cmp::min(self.header.count, number_of_entries_to_pop);
        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''        let capacity = self.events.len() as u64;
        let EventQueueHeader { head, count, .. } = &mut *self.header;
        let n = number_of_entries_to_pop.min(*count);
        *head = (*head + n) % capacity;
        *count -= n;
'''))
ref('y-eq-peek-in-range',
    (EQ, '''        if self.header.count <= index {
            return None;
        }

        let event_idx = (self.header.head.checked_add(index).unwrap() as usize) % self.events.len();
        Some(self.get_event(event_idx))
''', '''        (0..self.header.count).contains(&index).then(|| {
            let position = self.header.head.checked_add(index).unwrap();
            self.get_event(position as usize % self.events.len())
        })
'''))
ref('y-eq-iter-none',
    (EQ, '''        if self.remaining == 0 {
            return None;
        }
        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
        self.current_index += 1;
        self.remaining -= 1;
        Some(self.queue.get_event(event_idx))
''', '''        self.remaining = self.remaining.checked_sub(1)?;
        let capacity = self.queue.events.len();
        let event_idx = (self.queue.header.head as usize + self.current_index) % capacity;
        self.current_index += 1;
        Some(self.queue.get_event(event_idx))
'''))
ref('y-eq-gen-id-xor',
    (EQ, '''        let upper = (limit_price as u128) << 64;
        let lower = match side {
            Side::Bid => !seq_num,
            Side::Ask => seq_num,
        };
        upper | (lower as u128)
''', '''        let lower = if side == Side::Bid {
            u64::MAX ^ seq_num
        } else {
            seq_num
        };
        ((limit_price as u128) << 64) + u128::from(lower)
'''))
ref('y-eq-seq-replace',
    (EQ, '''        let seq_num = self.header.seq_num;
        self.header.seq_num += 1;
        seq_num
''', '''        let next = self.header.seq_num + 1;
        std::mem::replace(&mut self.header.seq_num, next)
'''))
ref('y-eq-empty-len',
    (EQ, '''        self.header.count == 0
    }

    /// Returns the current length''', '''        self.len() == 0
    }

    /// Returns the current length'''))
ref('y-eq-buffer-size-consts',
    (EQ, '''        if account_len < HEADER_OFFSET + 5 * event_size {
            msg!("The event queue account is too small!");
            return Err(ProgramError::InvalidAccountData);
        }
        if (account_len - HEADER_OFFSET) % event_size != 0 {
            msg!("Event queue account size is invalid!");
            return Err(ProgramError::InvalidAccountData);
        }
        Ok(())
''', '''        match account_len.checked_sub(HEADER_OFFSET) {
            Some(rest) if rest >= 5 * event_size => {
                if rest % event_size == 0 {
                    Ok(())
                } else {
                    msg!("Event queue account size is invalid!");
                    Err(ProgramError::InvalidAccountData)
                }
            }
            _ => {
                msg!("The event queue account is too small!");
                Err(ProgramError::InvalidAccountData)
            }
        }
'''))
# ---- slab
ref('y-cb-alloc-split',
    (CB, '''    pub(crate) fn allocate_leaf(&mut self) -> Result<NodeHandle, IoError> {
        if self.header.leaf_free_list_len == 0 {
            if self.header.leaf_bump_index as usize >= self.leaf_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index += 1;
            return Ok(key);
        }
''', '''    fn bump_leaf(&mut self) -> Result<NodeHandle, IoError> {
        let key = self.header.leaf_bump_index;
        if (key as usize) < self.leaf_nodes.len() {
            self.header.leaf_bump_index = key + 1;
            Ok(key)
        } else {
            Err(std::io::ErrorKind::UnexpectedEof.into())
        }
    }

    pub(crate) fn allocate_leaf(&mut self) -> Result<NodeHandle, IoError> {
        if self.header.leaf_free_list_len == 0 {
            return self.bump_leaf();
        }
'''))
ref('y-cb-free-leaf-if',
    (CB, '''        if self.header.leaf_free_list_len != 0 {
            let next = self.header.leaf_free_list_head;
            self.leaf_nodes[handle as usize].base_quantity = next as u64;
        }

        self.header.leaf_free_list_len += 1;
        self.header.leaf_free_list_head = handle;
''', '''        let previous = std::mem::replace(&mut self.header.leaf_free_list_head, handle);
        if self.header.leaf_free_list_len > 0 {
            self.leaf_nodes[handle as usize].base_quantity = u64::from(previous);
        }
        self.header.leaf_free_list_len += 1;
'''))
ref('y-cb-insert-shared-prefix-fn',
    (CB, '''                    #[cfg(target_os = "solana")]
                    let shared_prefix_len: u32 = (root_node.key ^ new_leaf.key).leading_zeros();
                    #[cfg(not(target_os = "solana"))]
                    let shared_prefix_len: u32 =
                        (root_node.order_id() ^ new_leaf.order_id()).leading_zeros();

                    shared_prefix_len
''', '''                    shared_bits(root_node.order_id(), new_leaf.order_id())
'''),
    (CB, '''pub type NodeHandle = u32;
''', '''pub type NodeHandle = u32;

fn shared_bits(a: u128, b: u128) -> u32 {
    (a ^ b).leading_zeros()
}
'''))
ref('y-cb-insert-place-fn',
    (CB, '''            if let Some(n) = parent_node {
                let node = &mut self.inner_nodes[(!n) as usize];
                node.children[previous_critbit.unwrap() as usize] = new_root_node_handle;
            } else {
                self.header.root_node = new_root_node_handle;
            }
''', '''            self.relink(parent_node.zip(previous_critbit), new_root_node_handle);
'''),
    (CB, '''        match grandparent_h {
            Some(h) => {
                let r = &mut self.inner_nodes[(!h) as usize];
                r.children[prev_crit_bit.unwrap() as usize] = other_child_h;
            }
            None => self.header.root_node = other_child_h,
        }
''', '''        self.relink(grandparent_h.zip(prev_crit_bit), other_child_h);
'''),
    (CB, '''    #[inline(always)]
    pub fn get_callback_info(&self''', '''    fn relink(&mut self, place: Option<(NodeHandle, bool)>, child: NodeHandle) {
        match place {
            Some((parent, bit)) => {
                self.inner_nodes[(!parent) as usize].children[bit as usize] = child
            }
            None => self.header.root_node = child,
        }
    }

    #[inline(always)]
    pub fn get_callback_info(&self'''))
ref('y-cb-remove-single-leaf-fn',
    (CB, '''        if let Some(leaf_copy) = remove_root {
            self.free_leaf(parent_h);

            self.header.root_node = 0;
            self.header.leaf_count = 0;
            return Some((leaf_copy, self.get_callback_info(parent_h)));
        }
''', '''        if let Some(leaf_copy) = remove_root {
            self.clear(parent_h);
            return Some((leaf_copy, &self.callback_infos[parent_h as usize]));
        }
'''),
    (CB, '''    #[inline(always)]
    pub fn get_callback_info(&self''', '''    fn clear(&mut self, last: NodeHandle) {
        self.free_leaf(last);
        self.header.leaf_count = 0;
        self.header.root_node = 0;
    }

    #[inline(always)]
    pub fn get_callback_info(&self'''))
ref('y-cb-min-max-bool-index',
    (CB, '''        let mut root: NodeHandle = self.header.root_node;
        loop {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
''', '''        let mut handle = self.root()?;
        while let Node::Inner = Node::from_handle(handle) {
            handle = self.inner_nodes[(!handle) as usize].children[find_max as usize];
        }
        Some(handle)
'''))
ref('y-cb-iter-pair',
    (CB, '''                    self.search_stack.push(n.children[self.ascending as usize]);
                    self.search_stack.push(n.children[!self.ascending as usize]);
''', '''                    let [left, right] = n.children;
                    if self.ascending {
                        self.search_stack.extend_from_slice(&[right, left]);
                    } else {
                        self.search_stack.extend_from_slice(&[left, right]);
                    }
'''))
ref('y-cb-into-iter-root',
    (CB, '''            search_stack: if self.header.leaf_count == 0 {
                vec![]
            } else {
                vec![self.header.root_node]
            },
''', '''            search_stack: match self.root() {
                Some(root) => vec![root],
                None => Vec::new(),
            },
'''))
ref('y-cb-walk-down-if',
    (CB, '''        let crit_bit_mask = (1u128 << 127) >> self.prefix_len;
        let crit_bit = (search_key & crit_bit_mask) != 0;
        (self.children[crit_bit as usize], crit_bit)
''', '''        let crit_bit_mask = 1u128 << (127 - self.prefix_len);
        if search_key & crit_bit_mask == 0 {
            (self.children[0], false)
        } else {
            (self.children[1], true)
        }
'''))
ref('y-cb-order-id-bytes',
    (CB, '''            (self.key[0] as u128) + ((self.key[1] as u128) << 64)
''', '''            let [low, high] = self.key;
            u128::from(high) << 64 | u128::from(low)
'''))
# ---- processors
ref('y-p-owner-helper',
    (NOP, '''        check_account_owner(
            self.event_queue,
            &program_id.to_bytes(),
            AoError::WrongEventQueueOwner,
        )?;
        check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)?;
        check_account_owner(self.asks, &program_id.to_bytes(), AoError::WrongAsksOwner)?;
        Ok(())
''', '''        let owner = program_id.to_bytes();
        IntoIterator::into_iter([
            (self.event_queue, AoError::WrongEventQueueOwner),
            (self.bids, AoError::WrongBidsOwner),
            (self.asks, AoError::WrongAsksOwner),
        ])
        .try_for_each(|(account, error)| check_account_owner(account, &owner, error))?;
        Ok(())
'''))
ref('y-p-new-order-price-fn',
    (NOP, '''    if params.limit_price % market_state.tick_size != 0 {
        return Err(AoError::InvalidLimitPrice.into());
    }

    if params.post_allowed && params.limit_price < market_state.tick_size {
        msg!(
            "Can't attempt to post an order of price less than market tick size to the orderbook!"
        );
        return Err(AoError::InvalidLimitPrice.into());
    }
''', '''    check_limit_price(params.limit_price, params.post_allowed, market_state.tick_size)?;
'''),
    (NOP, '''fn check_accounts<''', '''fn check_limit_price(limit_price: u64, post_allowed: bool, tick_size: u64) -> Result<(), AoError> {
    let multiple = limit_price % tick_size == 0;
    let too_small_to_post = post_allowed && limit_price < tick_size;
    match (multiple, too_small_to_post) {
        (true, false) => Ok(()),
        _ => Err(AoError::InvalidLimitPrice),
    }
}

fn check_accounts<'''))
ref('y-p-cancel-destructure',
    (PCA, '''    let slab = order_book.get_tree(get_side_from_order_id(params.order_id));
    let (leaf_node, _) = slab
        .remove_by_key(params.order_id)
        .ok_or(AoError::OrderNotFound)?;
    let total_base_qty = leaf_node.base_quantity;
    let total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
        .ok_or(AoError::NumericalOverflow)?;
''', '''    let Params { order_id } = params;
    let side = get_side_from_order_id(order_id);
    let leaf_node = match order_book.get_tree(side).remove_by_key(order_id) {
        Some((leaf_node, _)) => leaf_node,
        None => return Err(AoError::OrderNotFound.into()),
    };
    let price = leaf_node.price();
    let total_base_qty = leaf_node.base_quantity;
    let total_quote_qty = match fp32_mul_floor(total_base_qty, price) {
        Some(quote) => quote,
        None => return Err(AoError::NumericalOverflow.into()),
    };
'''))
ref('y-p-mass-try-fold',
    (PMC, '''    let mut total_base_qty = 0u64;
    let mut total_quote_qty = 0u64;

    for order_id in params.order_ids {
        let slab = order_book.get_tree(get_side_from_order_id(order_id));
        let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
    }
''', '''    let (total_base_qty, total_quote_qty) =
        params
            .order_ids
            .into_iter()
            .try_fold((0u64, 0u64), |(base, quote), order_id| {
                let slab = order_book.get_tree(get_side_from_order_id(order_id));
                let (leaf_node, _) =
                    slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
                let base = base
                    .checked_add(leaf_node.base_quantity)
                    .ok_or(AoError::NumericalOverflow)?;
                let quote = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
                    .and_then(|n| quote.checked_add(n))
                    .ok_or(AoError::NumericalOverflow)?;
                Ok::<_, AoError>((base, quote))
            })?;
'''))
ref('y-p-mass-pairs',
    (PMC, '''        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
''', '''        let quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .ok_or(AoError::NumericalOverflow)?;
        match total_quote_qty.overflowing_add(quote_qty) {
            (sum, false) => total_quote_qty = sum,
            (_, true) => return Err(AoError::NumericalOverflow.into()),
        }
'''))
ref('y-p-consume-log-after',
    (PCO, '''    // Reward payout
    let capped_number_of_entries_consumed = std::cmp::min(
        event_queue.header.count,
        params.number_of_entries_to_consume,
    );

    // Pop Events
    event_queue.pop_n(params.number_of_entries_to_consume);

    msg!(
        "Number of events consumed: {:?}",
        capped_number_of_entries_consumed
    );
''', '''    let pending = event_queue.len();
    event_queue.pop_n(params.number_of_entries_to_consume);
    msg!(
        "Number of events consumed: {:?}",
        pending - event_queue.len()
    );
'''))
ref('y-p-close-drain',
    (PCL, '''    let mut market_lamports = accounts.market.lamports.borrow_mut();
    let mut bids_lamports = accounts.bids.lamports.borrow_mut();
    let mut asks_lamports = accounts.asks.lamports.borrow_mut();
    let mut event_queue_lamports = accounts.event_queue.lamports.borrow_mut();

    let mut target_lamports = accounts.lamports_target_account.lamports.borrow_mut();

    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;

    **market_lamports = 0;
    **bids_lamports = 0;
    **asks_lamports = 0;
    **event_queue_lamports = 0;

    Ok(())
}
''', '''    drain(accounts.market, accounts.lamports_target_account);
    drain(accounts.bids, accounts.lamports_target_account);
    drain(accounts.asks, accounts.lamports_target_account);
    drain(accounts.event_queue, accounts.lamports_target_account);

    Ok(())
}

fn drain(from: &AccountInfo, to: &AccountInfo) {
    let amount = from.lamports();
    **from.lamports.borrow_mut() = 0;
    **to.lamports.borrow_mut() += amount;
}
'''))
ref('y-p-close-tag-array',
    (PCL, '''    *bytemuck::from_bytes_mut(&mut market_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut asks_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut bids_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut event_queue_data[0..8]) = AccountTag::Disabled as u64;
''', '''    let disabled = (AccountTag::Disabled as u64).to_le_bytes();
    event_queue_data[..8].copy_from_slice(&disabled);
    bids_data[..8].copy_from_slice(&disabled);
    asks_data[..8].copy_from_slice(&disabled);
    market_data[..8].copy_from_slice(&disabled);
'''))
ref('y-p-create-validate',
    (PCR, '''    if min_base_order_size == 0 || tick_size == 0 {
        msg!("min_base_order_size and tick_size must be > 0");
        return Err(ProgramError::InvalidArgument);
    }
''', '''    if [min_base_order_size, tick_size].contains(&0) {
        msg!("min_base_order_size and tick_size must be > 0");
        return Err(ProgramError::InvalidArgument);
    }
'''))
ref('y-p-dispatch-macro',
    ('processor.rs', '''            let params = cancel_order::Params::try_from_slice(instruction_data)
                .map_err(|_| ProgramError::InvalidInstructionData)?;
            return cancel_order::process::<C>(program_id, accounts, params).map(Some);
''', '''            let params = decode::<cancel_order::Params>(instruction_data)?;
            let summary = cancel_order::process::<C>(program_id, accounts, params)?;
            return Ok(Some(summary));
'''),
    ('processor.rs', '''            let params = mass_cancel_orders::Params::try_from_slice(instruction_data)
                .map_err(|_| ProgramError::InvalidInstructionData)?;
''', '''            let params = decode::<mass_cancel_orders::Params>(instruction_data)?;
'''),
    ('processor.rs', '''pub fn process_instruction<''', '''fn decode<T: BorshDeserialize>(data: &[u8]) -> Result<T, ProgramError> {
    T::try_from_slice(data).map_err(|_| ProgramError::InvalidInstructionData)
}

/// Decodes an instruction and carries it out
pub fn process_instruction<'''))
ref('y-p-register-meta',
    ('instruction.rs', '''        AgnosticOrderbookInstruction::CancelOrder as u8,
        params,
    );
    i.accounts.push(AccountMeta {
        pubkey: register_account,
        is_signer: false,
        is_writable: true,
    });
    i
''', '''        AgnosticOrderbookInstruction::CancelOrder as u8,
        params,
    );
    i.accounts.push(AccountMeta::new(register_account, false));
    i
'''))
ref('y-p-side-flag',
    ('state.rs', '''    if ORDER_ID_SIDE_FLAG & order_id != 0 {
        Side::Bid
    } else {
        Side::Ask
    }
''', '''    match (order_id >> 63) & 1 {
        0 => Side::Ask,
        _ => Side::Bid,
    }
'''))
ref('y-p-key-helper',
    ('utils.rs', '''    if account.key != key {
        return Err(error);
    }
    Ok(())
''', '''    (account.key == key).then_some(()).ok_or(error)
'''))

ref('y-p-close-sum-chain',
    (PCL, """    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;
""", """    let books = [**bids_lamports, **asks_lamports];
    let others = [**market_lamports, **event_queue_lamports];
    let total: u64 = books.iter().chain(others.iter()).sum();
    **target_lamports += total;
"""))
ref('y-p-create-rent-skip',
    (PCR, """    check_rent_exempt(accounts.asks)?;
    check_rent_exempt(accounts.bids)?;
    check_rent_exempt(accounts.event_queue)?;
    check_rent_exempt(accounts.market)?;
""", """    let all = [
        accounts.market,
        accounts.event_queue,
        accounts.bids,
        accounts.asks,
    ];
    for account in all.iter().skip(1).chain(all.first()) {
        check_rent_exempt(account)?;
    }
"""))
ref('y-no-side-ordering',
    (NO, """            let should_boot = match side {
                Side::Bid => boot_candidate_price < limit_price,
                Side::Ask => boot_candidate_price > limit_price,
            };
""", """            let compared = boot_candidate_price.cmp(&limit_price);
            let should_boot = match side {
                Side::Bid => compared.is_lt(),
                Side::Ask => compared.is_gt(),
            };
"""))
ref('y-no-crossed-ordering',
    (NO, """            crossed = match side {
                Side::Bid => limit_price >= trade_price,
                Side::Ask => limit_price <= trade_price,
            };
""", """            crossed = match (side, limit_price.cmp(&trade_price)) {
                (_, std::cmp::Ordering::Equal) => true,
                (Side::Bid, std::cmp::Ordering::Greater) => true,
                (Side::Ask, std::cmp::Ordering::Less) => true,
                _ => false,
            };
"""))
ref('z-cb-inner-key-of-old',
    (CB, """            let new_root_node_handle = self.allocate_inner_node().unwrap();
""", """            let old_key = match Node::from_handle(root) {
                Node::Inner => self.inner_nodes[(!root) as usize].key,
                Node::Leaf => self.leaf_nodes[root as usize].order_id(),
            };
            let new_root_node_handle = self.allocate_inner_node().unwrap();
"""),
    (CB, """            #[cfg(target_os = "solana")]
            {
                new_root_node.key = new_leaf.key;
            }
            #[cfg(not(target_os = "solana"))]
            {
                new_root_node.key = new_leaf.order_id();
            }
""", """            new_root_node.key = old_key;
"""))
ref('z-no-quote-min-redundant',
    (NO, """            .map(|q| std::cmp::min(q, quote_qty_remaining))
""", ""))


# ------------------------------------------------------------------ the wasm reader
def wasm(id, *edits):
    ref(id, *edits, base='js/wasm/src/')


WC, WL = 'critbit.rs', 'lib.rs'
FMM = '''        let mut root: NodeHandle = self.root()?;
        loop {
            let root_contents = self.get_node(root).unwrap();
            match root_contents {
                Node::Inner(InnerNode { children, .. }) => {
                    root = children[if find_max { 1 } else { 0 }];
                    continue;
                }
                _ => return Some(root),
            }
        }
'''
wasm('w-minmax-while', (WC, FMM, '''        let mut current = self.root()?;
        while let Node::Inner(inner) = self.get_node(current).unwrap() {
            current = inner.children[find_max as usize];
        }
        Some(current)
'''))
wasm('w-minmax-index', (WC, FMM, '''        let side = usize::from(find_max);
        let mut root: NodeHandle = self.root()?;
        loop {
            match self.get_node(root).unwrap().children() {
                Some(children) => root = children[side],
                None => return Some(root),
            }
        }
'''))
wasm('w-minmax-two', (WC, '''    pub fn find_min(&self) -> Option<NodeHandle> {
        self.find_min_max(false)
    }
''', '''    pub fn find_min(&self) -> Option<NodeHandle> {
        let mut h = self.root()?;
        loop {
            match self.get_node(h).unwrap() {
                Node::Inner(inner) => h = inner.children[0],
                _ => break,
            }
        }
        Some(h)
    }
'''))
wasm('w-root-if', (WC, '''        if self.header.leaf_count == 0 {
            return None;
        }

        Some(self.header.root_node)
''', '''        if self.header.leaf_count > 0 {
            Some(self.header.root_node)
        } else {
            None
        }
'''))
wasm('w-root-then', (WC, '''        if self.header.leaf_count == 0 {
            return None;
        }

        Some(self.header.root_node)
''', '''        let root = self.header.root_node;
        (self.header.leaf_count != 0).then(|| root)
'''))
wasm('w-get-node-slot', (WC, '''        let offset = SLAB_HEADER_LEN + (key as usize) * self.slot_size;
        // println!("key: {:?}, slot_size: {:?}", key, self.slot_size);
        let node = Node::deserialize(
            &self.buffer.borrow()[offset..offset + self.slot_size],
            self.callback_info_len,
        )
        .ok()?;
        Some(node)
''', '''        let buffer = self.buffer.borrow();
        let start = self.slot_offset(key);
        let slot = &buffer[start..start + self.slot_size];
        Node::deserialize(slot, self.callback_info_len).ok()
'''), (WC, '''    fn capacity(&self) -> u64 {''', '''    fn slot_offset(&self, key: u32) -> usize {
        SLAB_HEADER_LEN + (key as usize) * self.slot_size
    }

    fn capacity(&self) -> u64 {'''))
wasm('w-get-node-match', (WC, '''        let node = Node::deserialize(
            &self.buffer.borrow()[offset..offset + self.slot_size],
            self.callback_info_len,
        )
        .ok()?;
        Some(node)
''', '''        match Node::deserialize(
            &self.buffer.borrow()[offset..][..self.slot_size],
            self.callback_info_len,
        ) {
            Ok(node) => Some(node),
            Err(_) => None,
        }
'''))
L2 = '''                    let leaf_price = leaf.price();
                    if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                        let idx = result.len() - 2;
                        result[idx] += leaf.base_quantity;
                    } else if result.len() == 2 * depth {
                        // The price has changed and there are enough levels. Orders at the last
                        // level's price are still added to it by the branch above.
                        break;
                    } else {
                        result.push(leaf.base_quantity);
                        result.push(leaf_price);
                    }
'''
wasm('w-l2-same-level', (WC, L2, '''                    let leaf_price = leaf.price();
                    let same_level = match result.last() {
                        Some(p) => *p == leaf_price,
                        None => false,
                    };
                    if same_level {
                        let idx = result.len() - 2;
                        result[idx] += leaf.base_quantity;
                        continue;
                    }
                    if result.len() == 2 * depth {
                        break;
                    }
                    result.push(leaf.base_quantity);
                    result.push(leaf_price);
'''))
wasm('w-l2-last-eq', (WC, 'if result.last().map(|p| p == &leaf_price).unwrap_or(false) {', 'if result.last() == Some(&leaf_price) {'))
wasm('w-l2-map-or', (WC, 'if result.last().map(|p| p == &leaf_price).unwrap_or(false) {', 'if result.last().map_or(false, |p| *p == leaf_price) {'))
wasm('w-l2-return', (WC, '''                        // The price has changed and there are enough levels. Orders at the last
                        // level's price are still added to it by the branch above.
                        break;
''', '''                        return result;
'''))
wasm('w-l2-if-let', (WC, '''        let root = self.root();
        if root.is_none() {
            return vec![];
        }
        let mut result = Vec::with_capacity(2 * depth);
        let mut search_stack = vec![root.unwrap()];
''', '''        let root = match self.root() {
            Some(root) => root,
            None => return vec![],
        };
        let mut result = Vec::with_capacity(2 * depth);
        let mut search_stack = vec![root];
'''))
wasm('w-l2-extend', (WC, '''                        result.push(leaf.base_quantity);
                        result.push(leaf_price);
''', '''                        result.extend_from_slice(&[leaf.base_quantity, leaf_price]);
'''))
wasm('w-l2-near-far', (WC, '''                Node::Inner(ref inner) => {
                    search_stack.push(inner.children[increasing as usize]);
                    search_stack.push(inner.children[1 - increasing as usize]);
                }
                Node::Leaf(ref leaf) => {''', '''                Node::Inner(ref inner) => {
                    let (far, near) = if increasing {
                        (inner.children[1], inner.children[0])
                    } else {
                        (inner.children[0], inner.children[1])
                    };
                    search_stack.push(far);
                    search_stack.push(near);
                }
                Node::Leaf(ref leaf) => {'''))
wasm('w-l2-levels-counter', (WC, '''        let mut result = Vec::with_capacity(2 * depth);
        let mut search_stack''', '''        let mut result: Vec<u64> = Vec::with_capacity(2 * depth);
        let mut levels = 0;
        let mut search_stack'''),
     (WC, '} else if result.len() == 2 * depth {', '} else if levels == depth {'),
     (WC, '''                        result.push(leaf_price);
''', '''                        result.push(leaf_price);
                        levels += 1;
'''))
wasm('w-l2-push-helper', (WC, '''                Node::Inner(ref inner) => {
                    search_stack.push(inner.children[increasing as usize]);
                    search_stack.push(inner.children[1 - increasing as usize]);
                }
                Node::Leaf(ref leaf) => {''', '''                Node::Inner(ref inner) => inner.push_children(&mut search_stack, increasing),
                Node::Leaf(ref leaf) => {'''),
     (WC, '''impl InnerNode {
    fn walk_down''', '''impl InnerNode {
    fn push_children(&self, stack: &mut Vec<NodeHandle>, increasing: bool) {
        stack.push(self.children[increasing as usize]);
        stack.push(self.children[1 - increasing as usize]);
    }

    fn walk_down'''))
wasm('w-seq-while-let', (WC, '''        while result.len() != depth {
            let current = search_stack.pop();
            if current.is_none() {
                break;
            }
            let node = self.get_node(current.unwrap()).unwrap();
            if let Node::Inner(ref inner) = node {
                search_stack.push(inner.children[increasing as usize]);
                search_stack.push(inner.children[1 - increasing as usize]);
            } else {
                result.push(current.unwrap());
            }
        }
        result
''', '''        while result.len() < depth {
            match search_stack.pop() {
                None => break,
                Some(current) => match self.get_node(current).unwrap() {
                    Node::Inner(inner) => {
                        search_stack.push(inner.children[increasing as usize]);
                        search_stack.push(inner.children[!increasing as usize]);
                    }
                    _ => result.push(current),
                },
            }
        }
        result
'''))
wasm('w-leaf-split', (WC, '''        let key = u128::from_le_bytes(
            buf[..16]
                .try_into()
                .map_err(|_| std::io::ErrorKind::InvalidData)?,
        );
        let callback_info = buf[16..callback_info_len + 16].to_owned();
        let base_quantity = u64::from_le_bytes(
            buf[callback_info_len + 16..callback_info_len + 24]
                .try_into()
                .map_err(|_| std::io::ErrorKind::InvalidData)?,
        );
''', '''        let (key_bytes, rest) = buf.split_at(16);
        let (callback_bytes, rest) = rest.split_at(callback_info_len);
        let key = u128::from_le_bytes(
            key_bytes
                .try_into()
                .map_err(|_| std::io::ErrorKind::InvalidData)?,
        );
        let callback_info = callback_bytes.to_vec();
        let base_quantity = u64::from_le_bytes(
            rest[..8]
                .try_into()
                .map_err(|_| std::io::ErrorKind::InvalidData)?,
        );
'''))
wasm('w-leaf-array', (WC, '''        let key = u128::from_le_bytes(
            buf[..16]
                .try_into()
                .map_err(|_| std::io::ErrorKind::InvalidData)?,
        );
''', '''        let mut key = [0u8; 16];
        key.copy_from_slice(&buf[..16]);
        let key = u128::from_le_bytes(key);
'''))
wasm('w-price-cast', (WC, '(self.key >> 64) as u64', '(self.key / (1u128 << 64)) as u64'))
wasm('w-node-order', (WC, '''            0 => Ok(Node::Uninitialized),
            1 => Ok(Node::Inner(InnerNode::deserialize(&mut &buffer[1..])?)),
            2 => Ok(Node::Leaf(LeafNode::deserialize(
                &buffer[1..],
                callback_info_len,
            )?)),
''', '''            2 => Ok(Node::Leaf(LeafNode::deserialize(
                &buffer[1..],
                callback_info_len,
            )?)),
            1 => Ok(Node::Inner(InnerNode::deserialize(&mut &buffer[1..])?)),
            0 => Ok(Node::Uninitialized),
'''))
wasm('w-node-split-first', (WC, '''        match buffer[0] {
            0 => Ok(Node::Uninitialized),
            1 => Ok(Node::Inner(InnerNode::deserialize(&mut &buffer[1..])?)),
            2 => Ok(Node::Leaf(LeafNode::deserialize(
                &buffer[1..],
                callback_info_len,
            )?)),
''', '''        let tag = buffer[0];
        let mut body = &buffer[1..];
        match tag {
            0 => Ok(Node::Uninitialized),
            1 => Ok(Node::Inner(InnerNode::deserialize(&mut body)?)),
            2 => LeafNode::deserialize(body, callback_info_len).map(Node::Leaf),
'''))
wasm('w-lib-open', (WL, '''    let slab = Slab::new(
        Rc::new(RefCell::new(data)),
        callback_info_len as usize,
        slot_size as usize,
    );
    slab.find_max()
''', '''    open(data, callback_info_len, slot_size).find_max()
'''), (WL, '''#[wasm_bindgen]
pub fn find_max(''', '''fn open(data: &mut [u8], callback_info_len: u64, slot_size: u64) -> Slab {
    Slab::new(
        Rc::new(RefCell::new(data)),
        callback_info_len as usize,
        slot_size as usize,
    )
}

#[wasm_bindgen]
pub fn find_max('''))

# ------------------------------------------------------------------ another way of writing it
ref('q-no-min-of-array',
    (NO, '''            let base_trade_qty = offer_size
                .min(base_qty_remaining)
                .min(fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX));
''', '''            let affordable = fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX);
            let base_trade_qty = *[offer_size, base_qty_remaining, affordable]
                .iter()
                .min()
                .unwrap();
'''))
ref('q-no-crossed-guards',
    (NO, '''            crossed = match side {
                Side::Bid => limit_price >= trade_price,
                Side::Ask => limit_price <= trade_price,
            };
''', '''            crossed = match side {
                Side::Bid if limit_price < trade_price => false,
                Side::Ask if limit_price > trade_price => false,
                _ => true,
            };
'''))
ref('q-no-crossed-range',
    (NO, '''            crossed = match side {
                Side::Bid => limit_price >= trade_price,
                Side::Ask => limit_price <= trade_price,
            };
''', '''            crossed = match side {
                Side::Bid => (0..=limit_price).contains(&trade_price),
                Side::Ask => (limit_price..).contains(&trade_price),
            };
'''))
ref('q-no-labelled',
    (NO, '''        loop {
            if match_limit == 0 {
                break;
            }
            let best_bo_h = match self.find_bbo(side.opposite()) {
                None => {
                    crossed = false;
                    break;
                }
                Some(h) => h,
            };
''', '''        'matching: while match_limit != 0 {
            let best_bo_h = if let Some(h) = self.find_bbo(side.opposite()) {
                h
            } else {
                crossed = false;
                break 'matching;
            };
'''))
ref('q-no-id-closure',
    (NO, '''                    #[cfg(target_os = "solana")]
                    let order_id = best_offer_id;
                    #[cfg(not(target_os = "solana"))]
                    let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                    let provide_out''', '''                    #[cfg(target_os = "solana")]
                    let to_field = |id: u128| id;
                    #[cfg(not(target_os = "solana"))]
                    let to_field = |id: u128| [id as u64, (id >> 64) as u64];
                    let order_id = to_field(best_offer_id);
                    let provide_out'''))
ref('q-no-cancel-provide-fn',
    (NO, '''                    let provide_out_callback_info =
                        &opposite_slab.callback_infos[best_bo_h as usize];
                    #[cfg(target_os = "solana")]
                    let order_id = best_offer_id;
                    #[cfg(not(target_os = "solana"))]
                    let order_id = [best_offer_id as u64, (best_offer_id >> 64) as u64];
                    let provide_out = OutEvent {
                        side: side.opposite() as u8,
                        order_id,
                        base_size: best_bo_ref.base_quantity,
                        tag: EventTag::Out as u8,
                        _padding: [0; 14],
                    };
                    event_queue
                        .push_back(provide_out, Some(provide_out_callback_info), None)
                        .map_err(|_| AoError::EventQueueFull)?;

                    self.get_tree(side.opposite())
                        .remove_by_key(best_offer_id)
                        .unwrap();

                    match_limit -= 1;

                    continue;
''', '''                    self.cancel_provide(side.opposite(), best_bo_h, best_offer_id, event_queue)?;
                    match_limit -= 1;
                    continue;
'''),
    (NO, '''    pub fn new_order(
        &mut self,''', '''    fn cancel_provide(
        &mut self,
        maker_side: Side,
        handle: NodeHandle,
        id: u128,
        event_queue: &mut EventQueue<'a, C>,
    ) -> Result<(), AoError> {
        let slab = self.get_tree(maker_side);
        #[cfg(target_os = "solana")]
        let order_id = id;
        #[cfg(not(target_os = "solana"))]
        let order_id = [id as u64, (id >> 64) as u64];
        let out = OutEvent {
            side: maker_side as u8,
            order_id,
            base_size: slab.leaf_nodes[handle as usize].base_quantity,
            tag: EventTag::Out as u8,
            _padding: [0; 14],
        };
        if event_queue
            .push_back(out, Some(slab.get_callback_info(handle)), None)
            .is_err()
        {
            return Err(AoError::EventQueueFull);
        }
        slab.remove_by_key(id).unwrap();
        Ok(())
    }

    pub fn new_order(
        &mut self,'''))
ref('q-no-dust-remove-after-push',
    (NO, '''                let (_, out_event_callback_info) = self
                    .get_tree(cur_side)
                    .remove_by_key(best_offer_id)
                    .unwrap();
                event_queue
                    .push_back(out_event, Some(out_event_callback_info), None)
                    .map_err(|_| AoError::EventQueueFull)?;
''', '''                let tree = self.get_tree(cur_side);
                event_queue
                    .push_back(out_event, Some(tree.get_callback_info(best_bo_h)), None)
                    .map_err(|_| AoError::EventQueueFull)?;
                let removed = tree.remove_by_key(best_offer_id);
                assert!(removed.is_some());
'''))
ref('q-no-posted-option',
    (NO, '''        if crossed || !post_allowed || base_qty_to_post < min_base_order_size {
            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: max_base_qty - base_qty_remaining,
                total_quote_qty: max_quote_qty - quote_qty_remaining,
                total_base_qty_posted: 0,
            });
        }
''', '''        let may_post = post_allowed && !crossed;
        let postable = Some(base_qty_to_post).filter(|q| may_post && *q >= min_base_order_size);
        if postable.is_none() {
            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: max_base_qty - base_qty_remaining,
                total_quote_qty: max_quote_qty - quote_qty_remaining,
                total_base_qty_posted: 0,
            });
        }
'''))
ref('q-no-boot-order-event',
    (NO, '''                let (order, callback_info_booted) = slab.remove_by_key(boot_candidate_key).unwrap();
''', '''                let (order, callback_info_booted) = match slab.remove_by_key(boot_candidate_key) {
                    Some(removed) => removed,
                    None => unreachable!(),
                };
'''),
    (NO, '''                    order_id: {
                        let o = order.order_id();
                        #[cfg(not(target_os = "solana"))]
                        let o = [o as u64, (o >> 64) as u64];
                        o
                    },
                    base_size: order.base_quantity,''', '''                    order_id: order.key,
                    base_size: order.base_quantity,'''))
ref('q-no-boot-not',
    (NO, '''            let should_boot = match side {
                Side::Bid => boot_candidate_price < limit_price,
                Side::Ask => boot_candidate_price > limit_price,
            };
            if should_boot {''', '''            let keep = match side {
                Side::Bid => boot_candidate_price >= limit_price,
                Side::Ask => boot_candidate_price <= limit_price,
            };
            if !keep {'''))
ref('q-no-callback-slot',
    (NO, '''        *self.get_tree(side).get_callback_info_mut(k) = callback_info;
''', '''        let tree = self.get_tree(side);
        let slot = &mut tree.callback_infos[k as usize];
        *slot = callback_info;
'''))
ref('q-no-callback-replace',
    (NO, '''        *self.get_tree(side).get_callback_info_mut(k) = callback_info;
''', '''        let _ = std::mem::replace(self.get_tree(side).get_callback_info_mut(k), callback_info);
'''))
ref('q-no-quote-posted-var',
    (NO, '''        base_qty_remaining -= base_qty_to_post;
        quote_qty_remaining -= match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        }
        .ok_or(AoError::NumericalOverflow)?;
        Ok(OrderSummary {
            posted_order_id: Some(new_leaf_order_id),
            total_base_qty: max_base_qty - base_qty_remaining,
            total_quote_qty: max_quote_qty - quote_qty_remaining,
            total_base_qty_posted: base_qty_to_post,
        })''', '''        let posted_quote = match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        };
        let quote_left = match posted_quote {
            Some(q) => quote_qty_remaining - q,
            None => return Err(AoError::NumericalOverflow),
        };
        let base_left = base_qty_remaining - base_qty_to_post;
        Ok(OrderSummary {
            posted_order_id: Some(new_leaf_order_id),
            total_base_qty: max_base_qty - base_left,
            total_quote_qty: max_quote_qty - quote_left,
            total_base_qty_posted: base_qty_to_post,
        })'''))
ref('q-no-self-trade-guard',
    (NO, '''                    if self_trade_behavior == SelfTradeBehavior::AbortTransaction {
                        return Err(AoError::WouldSelfTrade);
                    }
                    assert!(self_trade_behavior == SelfTradeBehavior::CancelProvide);
''', '''                    match self_trade_behavior {
                        SelfTradeBehavior::AbortTransaction => return Err(AoError::WouldSelfTrade),
                        SelfTradeBehavior::CancelProvide => (),
                        SelfTradeBehavior::DecrementTake => unreachable!(),
                    }
'''))
ref('q-no-spread-fn',
    (NO, '''        let best_bid_price = self
            .bids
            .find_max()
            .map(|h| self.bids.leaf_nodes[h as usize].price());
        let best_ask_price = self
            .asks
            .find_min()
            .map(|h| self.asks.leaf_nodes[h as usize].price());
        (best_bid_price, best_ask_price)
''', '''        let price_of = |slab: &Slab<'a, C>, best: Option<NodeHandle>| {
            best.and_then(|h| slab.leaf_nodes.get(h as usize))
                .map(LeafNode::price)
        };
        (
            price_of(&self.bids, self.bids.find_max()),
            price_of(&self.asks, self.asks.find_min()),
        )
'''))
ref('q-no-is-empty-root',
    (NO, '''        self.asks.header.leaf_count == 0 && self.bids.header.leaf_count == 0
''', '''        self.asks.root().is_none() && self.bids.root().is_none()
'''))
ref('q-no-is-empty-all',
    (NO, '''        self.asks.header.leaf_count == 0 && self.bids.header.leaf_count == 0
''', '''        [&self.asks, &self.bids]
            .iter()
            .all(|slab| slab.header.leaf_count == 0)
'''))
# queue
ref('q-eq-pop-loop',
    (EQ, '''        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''        let capacity = self.events.len() as u64;
        self.header.head = (self.header.head + capped_number_of_entries_to_pop) % capacity;
        self.header.count = self
            .header
            .count
            .checked_sub(capped_number_of_entries_to_pop)
            .unwrap();
'''))
ref('q-eq-slot-method',
    (EQ, '''    pub(crate) fn full(&self) -> bool {''', '''    fn slot(&self, offset: u64) -> usize {
        let capacity = self.events.len() as u64;
        (self.header.head.checked_add(offset).unwrap() % capacity) as usize
    }

    pub(crate) fn full(&self) -> bool {'''),
    (EQ, '''        let event_idx = (self.header.head.checked_add(index).unwrap() as usize) % self.events.len();
        Some(self.get_event(event_idx))''', '''        Some(self.get_event(self.slot(index)))'''),
    (EQ, '''        let event_idx =
            (self.header.head as usize + self.header.count as usize) % self.events.len();
        self.events[event_idx] = *generic_event;
''', '''        let event_idx = self.slot(self.header.count);
        self.events[event_idx] = *generic_event;
'''))
ref('q-eq-infos-array',
    (EQ, '''        if let Some(c) = maker_callback_info {
            self.callback_infos[event_idx * 2] = c.clone();
        }

        if let Some(c) = taker_callback_info {
            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
''', '''        let infos = [maker_callback_info, taker_callback_info];
        for (i, info) in infos.iter().enumerate() {
            if let Some(c) = info {
                self.callback_infos[2 * event_idx + i] = (*c).clone();
            }
        }
'''))
ref('q-eq-infos-slice',
    (EQ, '''        if let Some(c) = maker_callback_info {
            self.callback_infos[event_idx * 2] = c.clone();
        }

        if let Some(c) = taker_callback_info {
            self.callback_infos[event_idx * 2 + 1] = c.clone();
        }
''', '''        let pair = &mut self.callback_infos[2 * event_idx..2 * event_idx + 2];
        if let Some(c) = maker_callback_info {
            pair[0] = c.clone();
        }
        if let Some(c) = taker_callback_info {
            pair[1].clone_from(c);
        }
'''))
ref('q-eq-id-shift-sum',
    (EQ, '''        let upper = (limit_price as u128) << 64;
        let lower = match side {
            Side::Bid => !seq_num,
            Side::Ask => seq_num,
        };
        upper | (lower as u128)''', '''        let lower = match side {
            Side::Bid => u64::MAX - seq_num,
            Side::Ask => seq_num,
        };
        ((limit_price as u128) << 64) + lower as u128'''))
ref('q-eq-iter-fields',
    (EQ, '''        if self.remaining == 0 {
            return None;
        }
        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
        self.current_index += 1;
        self.remaining -= 1;
        Some(self.queue.get_event(event_idx))''', '''        let Self {
            queue,
            current_index,
            remaining,
        } = self;
        if *remaining == 0 {
            return None;
        }
        let event_idx = (queue.header.head as usize + *current_index) % queue.events.len();
        *current_index += 1;
        *remaining -= 1;
        Some(queue.get_event(event_idx))'''))
ref('q-eq-iter-checked-sub',
    (EQ, '''        if self.remaining == 0 {
            return None;
        }
        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
        self.current_index += 1;
        self.remaining -= 1;
        Some(self.queue.get_event(event_idx))''', '''        self.remaining = self.remaining.checked_sub(1)?;
        let event_idx =
            (self.queue.header.head as usize + self.current_index) % self.queue.events.len();
        self.current_index += 1;
        Some(self.queue.get_event(event_idx))'''))
ref('q-eq-from-buffer-get',
    (EQ, '''        let account_tag: &mut u64 = bytemuck::from_bytes_mut(&mut buf[0..8]);

        if *account_tag != expected_tag as u64 {
            return Err(AoError::AccountTagMismatch.into());
        }
        *account_tag = AccountTag::EventQueue as u64;

        let (header, remaining) = buf[8..].split_at_mut(EventQueueHeader::LEN);
''', '''        let (tag, rest) = buf.split_at_mut(8);
        let account_tag = bytemuck::from_bytes_mut::<u64>(tag);
        let (header, remaining) = rest.split_at_mut(EventQueueHeader::LEN);

        if *account_tag == expected_tag as u64 {
            *account_tag = AccountTag::EventQueue as u64;
        } else {
            return Err(AoError::AccountTagMismatch.into());
        }
'''))
# slab
ref('q-cb-alloc-checked',
    (CB, '''            if self.header.leaf_bump_index as usize >= self.leaf_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index += 1;
            return Ok(key);''', '''            let key = self.header.leaf_bump_index;
            return match self.leaf_nodes.get(key as usize) {
                Some(_) => {
                    self.header.leaf_bump_index = key + 1;
                    Ok(key)
                }
                None => Err(std::io::ErrorKind::UnexpectedEof.into()),
            };'''))
ref('q-cb-header-ref',
    (CB, '''        if self.header.leaf_free_list_len != 0 {
            let next = self.header.leaf_free_list_head;
            self.leaf_nodes[handle as usize].base_quantity = next as u64;
        }

        self.header.leaf_free_list_len += 1;
        self.header.leaf_free_list_head = handle;
''', '''        let header = &mut *self.header;
        if header.leaf_free_list_len > 0 {
            self.leaf_nodes[handle as usize].base_quantity = header.leaf_free_list_head as u64;
        }
        header.leaf_free_list_head = handle;
        header.leaf_free_list_len += 1;
'''))
ref('q-cb-insert-as-new-root',
    (CB, '''            if let Some(n) = parent_node {
                let node = &mut self.inner_nodes[(!n) as usize];
                node.children[previous_critbit.unwrap() as usize] = new_root_node_handle;
            } else {
                self.header.root_node = new_root_node_handle;
            }
''', '''            let link = match parent_node.zip(previous_critbit) {
                Some((n, bit)) => &mut self.inner_nodes[(!n) as usize].children[bit as usize],
                None => &mut self.header.root_node,
            };
            *link = new_root_node_handle;
'''))
ref('q-cb-insert-struct',
    (CB, '''            let new_root_node = &mut self.inner_nodes[(!new_root_node_handle) as usize];
            new_root_node.prefix_len = shared_prefix_len as u64;
            #[cfg(target_os = "solana")]
            {
                new_root_node.key = new_leaf.key;
            }
            #[cfg(not(target_os = "solana"))]
            {
                new_root_node.key = new_leaf.order_id();
            }
            new_root_node.children[new_leaf_crit_bit as usize] = new_leaf_handle;
            new_root_node.children[old_root_crit_bit as usize] = root;
''', '''            let mut children = [root; 2];
            children[new_leaf_crit_bit as usize] = new_leaf_handle;
            self.inner_nodes[(!new_root_node_handle) as usize] = InnerNode {
                key: new_leaf.order_id(),
                prefix_len: shared_prefix_len as u64,
                children,
            };
'''))
ref('q-cb-remove-is-leaf',
    (CB, '''        if let Node::Leaf = Node::from_handle(parent_h) {
            // The only order in the tree doesn't match the search key
            return None;
        }
''', '''        if parent_h & (1 << 31) == 0 {
            // The only order in the tree doesn't match the search key
            return None;
        }
'''))
ref('q-cb-remove-link',
    (CB, '''        match grandparent_h {
            Some(h) => {
                let r = &mut self.inner_nodes[(!h) as usize];
                r.children[prev_crit_bit.unwrap() as usize] = other_child_h;
            }
            None => self.header.root_node = other_child_h,
        }
''', '''        if grandparent_h.is_none() {
            self.header.root_node = other_child_h;
        } else {
            let r = &mut self.inner_nodes[(!grandparent_h.unwrap()) as usize];
            r.children[prev_crit_bit.unwrap() as usize] = other_child_h;
        }
'''))
ref('q-cb-remove-free-parent-early',
    (CB, '''        self.header.leaf_count -= 1;
        let removed_leaf = self.leaf_nodes[child_h as usize];
        self.free_leaf(child_h);
        self.free_inner_node(parent_h);
        Some((removed_leaf, self.get_callback_info(child_h)))
''', '''        let removed_leaf = self.leaf_nodes[child_h as usize];
        self.free_inner_node(parent_h);
        self.free_leaf(child_h);
        self.header.leaf_count = self.header.leaf_count.checked_sub(1).unwrap();
        Some((removed_leaf, &self.callback_infos[child_h as usize]))
'''))
ref('q-cb-minmax-usize-from',
    (CB, '''                    root = node.children[if find_max { 1 } else { 0 }];
''', '''                    let [low, high] = node.children;
                    root = if find_max { high } else { low };
'''))
ref('q-cb-root-then',
    (CB, '''        if self.header.leaf_count == 0 {
            None
        } else {
            Some(self.header.root_node)
        }
    }
    pub(crate) fn allocate_leaf''', '''        Some(self.header.root_node).filter(|_| self.header.leaf_count > 0)
    }
    pub(crate) fn allocate_leaf'''))
ref('q-cb-into-iter-collect',
    (CB, '''            search_stack: if self.header.leaf_count == 0 {
                vec![]
            } else {
                vec![self.header.root_node]
            },
''', '''            search_stack: self.root().into_iter().collect(),
'''))
ref('q-cb-crit-bit-shl',
    (CB, '''            let crit_bit_mask: u128 = (1u128 << 127) >> shared_prefix_len;
''', '''            let crit_bit_mask: u128 = 1u128 << (127 - shared_prefix_len);
'''))
# processors
PNO = 'processor/new_order.rs'
PCO = 'processor/cancel_order.rs'
PMC = 'processor/mass_cancel_orders.rs'
PCE = 'processor/consume_events.rs'
PCL = 'processor/close_market.rs'
PCR = 'processor/create_market.rs'
ref('q-p-price-checks-merged',
    (PNO, '''    if params.limit_price % market_state.tick_size != 0 {
        return Err(AoError::InvalidLimitPrice.into());
    }

    if params.post_allowed && params.limit_price < market_state.tick_size {
''', '''    let on_tick = params.limit_price % market_state.tick_size == 0;
    if !on_tick {
        return Err(AoError::InvalidLimitPrice.into());
    }

    let below_tick = params.limit_price < market_state.tick_size;
    if params.post_allowed && below_tick {
'''))
ref('q-p-price-zero',
    (PNO, '''    if params.post_allowed && params.limit_price < market_state.tick_size {
''', '''    if params.post_allowed && params.limit_price == 0 {
'''))
ref('q-p-price-check-fn',
    (PNO, '''    if params.limit_price % market_state.tick_size != 0 {
        return Err(AoError::InvalidLimitPrice.into());
    }

    if params.post_allowed && params.limit_price < market_state.tick_size {
        msg!(
            "Can't attempt to post an order of price less than market tick size to the orderbook!"
        );
        return Err(AoError::InvalidLimitPrice.into());
    }
''', '''    check_limit_price(&params, market_state).map_err(ProgramError::from)?;
'''),
    (PNO, '''fn check_accounts<''', '''fn check_limit_price<C>(params: &Params<C>, market: &MarketState) -> Result<(), AoError> {
    let valid = match params.limit_price.checked_rem(market.tick_size) {
        Some(0) => !params.post_allowed || params.limit_price >= market.tick_size,
        Some(_) => false,
        None => panic!("a market has a tick size"),
    };
    if valid {
        Ok(())
    } else {
        Err(AoError::InvalidLimitPrice)
    }
}

fn check_accounts<'''))
ref('q-p-min-size-copy',
    (PNO, '''    let mut bids_guard = accounts.bids.data.borrow_mut();
    let mut asks_guard = accounts.asks.data.borrow_mut();

    let mut order_book''', '''    let MarketState {
        min_base_order_size,
        ..
    } = *market_state;
    let mut asks_guard = accounts.asks.data.borrow_mut();
    let mut bids_guard = accounts.bids.data.borrow_mut();

    let mut order_book'''),
    (PNO, '''order_book.new_order(params, &mut event_queue, market_state.min_base_order_size)?;''', '''order_book.new_order(params, &mut event_queue, min_base_order_size)?;'''))
ref('q-p-cancel-let-else',
    (PCO, '''    let (leaf_node, _) = slab
        .remove_by_key(params.order_id)
        .ok_or(AoError::OrderNotFound)?;
    let total_base_qty = leaf_node.base_quantity;
    let total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
        .ok_or(AoError::NumericalOverflow)?;

    let order_summary = OrderSummary {
        posted_order_id: None,
        total_base_qty,
        total_quote_qty,
        total_base_qty_posted: 0,
    };

    Ok(order_summary)''', '''    let Some((leaf_node, _)) = slab.remove_by_key(params.order_id) else {
        return Err(AoError::OrderNotFound.into());
    };
    match fp32_mul_floor(leaf_node.base_quantity, leaf_node.price()) {
        Some(total_quote_qty) => Ok(OrderSummary {
            posted_order_id: None,
            total_base_qty: leaf_node.base_quantity,
            total_quote_qty,
            total_base_qty_posted: 0,
        }),
        None => Err(AoError::NumericalOverflow.into()),
    }'''))
ref('q-p-cancel-price-from-id',
    (PCO, '''fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())''', '''fp32_mul_floor(total_base_qty, (params.order_id >> 64) as u64)'''))
ref('q-p-mass-summary-mut',
    (PMC, '''    let mut total_base_qty = 0u64;
    let mut total_quote_qty = 0u64;
''', '''    let mut order_summary = OrderSummary {
        posted_order_id: None,
        total_base_qty: 0,
        total_quote_qty: 0,
        total_base_qty_posted: 0,
    };
'''),
    (PMC, '''        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
    }

    let order_summary = OrderSummary {
        posted_order_id: None,
        total_base_qty,
        total_quote_qty,
        total_base_qty_posted: 0,
    };
''', '''        order_summary.total_base_qty = order_summary
            .total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        let quote = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .ok_or(AoError::NumericalOverflow)?;
        order_summary.total_quote_qty = order_summary
            .total_quote_qty
            .checked_add(quote)
            .ok_or(AoError::NumericalOverflow)?;
    }
'''))
ref('q-p-mass-overflowing',
    (PMC, '''        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
''', '''        let (sum, overflow) = total_base_qty.overflowing_add(leaf_node.base_quantity);
        if overflow {
            return Err(AoError::NumericalOverflow.into());
        }
        total_base_qty = sum;
'''))
ref('q-p-mass-for-each',
    (PMC, '''    for order_id in params.order_ids {
        let slab = order_book.get_tree(get_side_from_order_id(order_id));
        let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
    }
''', '''    params.order_ids.iter().try_for_each(|order_id| {
        let slab = order_book.get_tree(get_side_from_order_id(*order_id));
        let (leaf_node, _) = slab.remove_by_key(*order_id).ok_or(AoError::OrderNotFound)?;
        total_base_qty = total_base_qty
            .checked_add(leaf_node.base_quantity)
            .ok_or(AoError::NumericalOverflow)?;
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
            .and_then(|n| n.checked_add(total_quote_qty))
            .ok_or(AoError::NumericalOverflow)?;
        Ok::<(), AoError>(())
    })?;
'''))
ref('q-p-consume-pop-capped',
    (PCE, '''    // Pop Events
    event_queue.pop_n(params.number_of_entries_to_consume);

    msg!(
        "Number of events consumed: {:?}",
        capped_number_of_entries_consumed
    );
''', '''    // Pop Events
    let before = event_queue.len();
    event_queue.pop_n(capped_number_of_entries_consumed);
    debug_assert_eq!(before - event_queue.len(), capped_number_of_entries_consumed);

    msg!("Number of events consumed: {:?}", before - event_queue.len());
'''))
ref('q-p-close-and',
    (PCL, '''    if !orderbook_state.is_empty() {
        msg!("The orderbook must be empty");
        return Err(ProgramError::from(AoError::MarketStillActive));
    }

    let mut event_queue_data = accounts.event_queue.data.borrow_mut();
''', '''    let book_empty = orderbook_state.is_empty();

    let mut event_queue_data = accounts.event_queue.data.borrow_mut();
'''),
    (PCL, '''    if event_queue.header.count != 0 {
        msg!("The event queue needs to be empty");
        return Err(ProgramError::from(AoError::MarketStillActive));
    }
''', '''    if !(book_empty && event_queue.header.count == 0) {
        msg!("The orderbook and the event queue must be empty");
        return Err(ProgramError::from(AoError::MarketStillActive));
    }
'''))
ref('q-p-close-copy-from-slice',
    (PCL, '''    *bytemuck::from_bytes_mut(&mut market_data[0..8]) = AccountTag::Disabled as u64;
    *bytemuck::from_bytes_mut(&mut asks_data[0..8]) = AccountTag::Disabled as u64;
''', '''    let disabled = (AccountTag::Disabled as u64).to_le_bytes();
    market_data[..8].copy_from_slice(&disabled);
    asks_data[..8].copy_from_slice(&disabled);
'''))
ref('q-p-close-replace',
    (PCL, '''    **target_lamports +=
        **market_lamports + **bids_lamports + **asks_lamports + **event_queue_lamports;

    **market_lamports = 0;
    **bids_lamports = 0;
    **asks_lamports = 0;
    **event_queue_lamports = 0;
''', '''    let reclaimed = std::mem::replace(&mut **market_lamports, 0)
        + std::mem::replace(&mut **bids_lamports, 0)
        + std::mem::replace(&mut **asks_lamports, 0)
        + std::mem::replace(&mut **event_queue_lamports, 0);
    **target_lamports += reclaimed;
'''))
ref('q-p-create-assign',
    (PCR, '''    if min_base_order_size == 0 || tick_size == 0 {
''', '''    if [min_base_order_size, tick_size].contains(&0) {
'''))
ref('q-p-create-any',
    (PCR, '''    if min_base_order_size == 0 || tick_size == 0 {
''', '''    if [min_base_order_size, tick_size].iter().any(|x| *x == 0) {
'''))
ref('q-p-create-min',
    (PCR, '''    if min_base_order_size == 0 || tick_size == 0 {
''', '''    if min_base_order_size.min(tick_size) < 1 {
'''))
ref('q-p-owner-ref',
    (PCO, '''        check_account_owner(
            self.market,
            &program_id.to_bytes(),
            AoError::WrongMarketOwner,
        )?;
        check_account_owner(
            self.event_queue,
            &program_id.to_bytes(),
            AoError::WrongEventQueueOwner,
        )?;
        check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)?;
        check_account_owner(self.asks, &program_id.to_bytes(), AoError::WrongAsksOwner)?;
        Ok(())''', '''        let id = &program_id.to_bytes();
        check_account_owner(self.market, id, AoError::WrongMarketOwner)
            .and_then(|_| check_account_owner(self.event_queue, id, AoError::WrongEventQueueOwner))
            .and_then(|_| check_account_owner(self.bids, id, AoError::WrongBidsOwner))
            .and_then(|_| check_account_owner(self.asks, id, AoError::WrongAsksOwner))?;
        Ok(())'''))
ref('q-p-parse-slice-pattern',
    (PCE, '''        let accounts_iter = &mut accounts.iter();

        let a = Self {
            market: next_account_info(accounts_iter)?,
            event_queue: next_account_info(accounts_iter)?,
        };
        Ok(a)''', '''        match accounts {
            [market, event_queue, ..] => Ok(Self {
                market,
                event_queue,
            }),
            _ => Err(ProgramError::NotEnoughAccountKeys),
        }'''))
ref('q-p-keys-table',
    (PCL, '''    check_account_key(
        accounts.event_queue,
        &market_state.event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    check_account_key(accounts.bids, &market_state.bids, AoError::WrongBidsAccount)?;
    check_account_key(accounts.asks, &market_state.asks, AoError::WrongAsksAccount)?;

    Ok(())''', '''    let MarketState {
        event_queue,
        bids,
        asks,
        ..
    } = market_state;
    check_account_key(accounts.asks, asks, AoError::WrongAsksAccount)?;
    check_account_key(accounts.bids, bids, AoError::WrongBidsAccount)?;
    check_account_key(
        accounts.event_queue,
        event_queue,
        AoError::WrongEventQueueAccount,
    )?;
    Ok(())'''))
ref('q-p-dispatch-first',
    ('processor.rs', '''    let instruction =
        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;
    let instruction_data = &instruction_data[1..];
''', '''    let (tag, instruction_data) = instruction_data.split_at(1);
    let instruction = match FromPrimitive::from_u8(tag[0]) {
        Some(i) => i,
        None => return Err(ProgramError::InvalidInstructionData),
    };
'''))
ref('q-p-dispatch-summary-var',
    ('processor.rs', '''            return cancel_order::process::<C>(program_id, accounts, params).map(Some);
''', '''            let summary = cancel_order::process::<C>(program_id, accounts, params)?;
            return Ok(Some(summary));
'''))

# iterator forms the standard library offers for the walks
ref('r-cb-minmax-successors', (CB, '''        let mut root: NodeHandle = self.header.root_node;
        loop {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
''', '''        std::iter::successors(Some(self.header.root_node), |h| {
            match Node::from_handle(*h) {
                Node::Leaf => None,
                Node::Inner => Some(self.inner_nodes[!*h as usize].children[find_max as usize]),
            }
        })
        .last()
'''))
ref('r-cb-minmax-find', (CB, '''        let mut root: NodeHandle = self.header.root_node;
        loop {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
''', '''        let mut current = self.header.root_node;
        std::iter::from_fn(|| {
            let h = current;
            if let Node::Inner = Node::from_handle(h) {
                current = self.inner_nodes[(!h) as usize].children[find_max as usize];
            }
            Some(h)
        })
        .find(|h| matches!(Node::from_handle(*h), Node::Leaf))
'''))
ref('r-cb-iter-find-map', (CB, '''        while let Some(current) = self.search_stack.pop() {
            match Node::from_handle(current) {
                Node::Inner => {
                    let n = &self.slab.inner_nodes[(!current) as usize];
                    self.search_stack.push(n.children[self.ascending as usize]);
                    self.search_stack.push(n.children[!self.ascending as usize]);
                }
                Node::Leaf => return Some(self.slab.leaf_nodes[current as usize]),
            }
        }
        None
''', '''        let Self { slab, search_stack, ascending } = self;
        std::iter::from_fn(|| {
            let current = search_stack.pop()?;
            Some(match Node::from_handle(current) {
                Node::Inner => {
                    let n = &slab.inner_nodes[(!current) as usize];
                    search_stack.push(n.children[*ascending as usize]);
                    search_stack.push(n.children[!*ascending as usize]);
                    None
                }
                Node::Leaf => Some(slab.leaf_nodes[current as usize]),
            })
        })
        .find_map(|leaf| leaf)
'''))

# helpers of the whole program: accounts, prices, sides, the market record
UTL, MKT, STA = 'utils.rs', 'state/market_state.rs', 'state.rs'
ref('s-u-owner-as-ref', (UTL, 'account.owner.to_bytes() != owner', 'account.owner.as_ref() != owner'))
ref('s-u-owner-swapped', (UTL, 'account.owner.to_bytes() != owner', 'owner != account.owner.to_bytes()'))
ref('s-u-owner-ne', (UTL, 'account.owner.to_bytes() != owner', '!account.owner.to_bytes().eq(owner)'))
ref('s-u-owner-iter', (UTL, 'account.owner.to_bytes() != owner', '&account.owner.to_bytes()[..] != owner'))
ref('s-u-key-then', (UTL, '''    if account.key != key {
        return Err(error);
    }
    Ok(())''', '''    (account.key == key).then_some(()).ok_or(error)'''))
ref('s-u-key-filter', (UTL, '''    if account.key != key {
        return Err(error);
    }
    Ok(())''', '''    Some(account.key).filter(|k| *k == key).map(|_| ()).ok_or(error)'''))
ref('s-u-key-bytes', (UTL, 'account.key != key {', 'account.key.as_ref() != key.as_ref() {'))
ref('s-u-key-to-bytes', (UTL, 'account.key != key {', 'account.key.to_bytes() != key.to_bytes() {'))
ref('s-u-spread-borrow', (UTL, '''    let mut bids = bids_account.data.borrow_mut();
    let mut asks = asks_account.data.borrow_mut();
''', '''    let (mut bids, mut asks) = (
        bids_account.data.borrow_mut(),
        asks_account.data.borrow_mut(),
    );
'''))
ref('s-u-round-let', (UTL, '''    match side {
        // Round down
        Side::Bid => tick_size * (limit_price / tick_size),
        // Round up
        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
    }''', '''    let numerator = match side {
        // Round down
        Side::Bid => limit_price,
        // Round up
        Side::Ask => limit_price + tick_size - 1,
    };
    let ticks = numerator / tick_size;
    ticks * tick_size'''))
ref('s-u-round-rem', (UTL, '''        Side::Bid => tick_size * (limit_price / tick_size),''', '''        Side::Bid => limit_price - limit_price % tick_size,'''))
ref('s-m-split', (MKT, '''        let tag = bytemuck::from_bytes_mut::<u64>(&mut account_data[0..8]);
''', '''        let (tag, data) = account_data.split_at_mut(8);
        let tag = bytemuck::from_bytes_mut::<u64>(tag);
'''), (MKT, '''        let (_, data) = account_data.split_at_mut(8);

''', ''))
ref('s-m-index', (MKT, '''        let (_, data) = account_data.split_at_mut(8);

        Ok(bytemuck::from_bytes_mut(data))''', '''        Ok(bytemuck::from_bytes_mut(&mut account_data[8..]))'''))
ref('s-m-deref', (MKT, '''        if tag != &(expected_tag as u64) {
            return Err(AoError::AccountTagMismatch.into());
        };
        *tag = AccountTag::Market as u64;
''', '''        match *tag == expected_tag as u64 {
            true => *tag = AccountTag::Market as u64,
            false => return Err(AoError::AccountTagMismatch.into()),
        }
'''))
ref('s-m-replace', (MKT, '''        if tag != &(expected_tag as u64) {
            return Err(AoError::AccountTagMismatch.into());
        };
        *tag = AccountTag::Market as u64;
''', '''        let expected = expected_tag as u64;
        if *tag != expected {
            return Err(ProgramError::from(AoError::AccountTagMismatch));
        }
        if expected != AccountTag::Market as u64 {
            *tag = AccountTag::Market as u64;
        }
'''))
ref('s-m-size-const', (MKT, '''        if account_data.len() != 8 + MarketState::LEN {''', '''        const ACCOUNT_LEN: usize = 8 + MarketState::LEN;
        if account_data.len() < ACCOUNT_LEN || account_data.len() > ACCOUNT_LEN {'''))
ref('s-m-size-checked', (MKT, '''        if account_data.len() != 8 + MarketState::LEN {
            msg!("Invalid market size!");
            return Err(ProgramError::InvalidAccountData);
        }
        Ok(())''', '''        match account_data.len().checked_sub(8) {
            Some(MarketState::LEN) => Ok(()),
            _ => {
                msg!("Invalid market size!");
                Err(ProgramError::InvalidAccountData)
            }
        }'''))
ref('s-s-side-shift', (STA, '    if ORDER_ID_SIDE_FLAG & order_id != 0 {', '    if (order_id >> 63) & 1 == 1 {'))
ref('s-s-side-low', (STA, '    if ORDER_ID_SIDE_FLAG & order_id != 0 {', '    if order_id as u64 > i64::MAX as u64 {'))
ref('s-s-side-match', (STA, '''    if ORDER_ID_SIDE_FLAG & order_id != 0 {
        Side::Bid
    } else {
        Side::Ask
    }''', '''    match order_id & ORDER_ID_SIDE_FLAG {
        0 => Side::Ask,
        _ => Side::Bid,
    }'''))
ref('s-s-side-eq-flag', (STA, '    if ORDER_ID_SIDE_FLAG & order_id != 0 {', '    if order_id & ORDER_ID_SIDE_FLAG == ORDER_ID_SIDE_FLAG {'))
ref('s-s-side-zeros', (STA, '    if ORDER_ID_SIDE_FLAG & order_id != 0 {', '    if (order_id as u64).leading_zeros() == 0 {'))
ref('s-s-opposite-if', (STA, '''        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }''', '''        if matches!(self, Side::Bid) {
            return Side::Ask;
        }
        Side::Bid'''))
_CK = """    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,
      isSigner: true,
      isWritable: false,
    });
    keys.push({
      pubkey: rewardTarget,
      isSigner: false,
      isWritable: true,
    });
"""
js('js-s-keys-multi-push', (RW, _CK, """    const keys: AccountKey[] = [];
    keys.push(
      { pubkey: market, isSigner: false, isWritable: true },
      { pubkey: eventQueue, isSigner: false, isWritable: true },
      { pubkey: authority, isSigner: true, isWritable: false },
      { pubkey: rewardTarget, isSigner: false, isWritable: true }
    );
"""))
js('js-s-keys-helper', (RW, _CK, """    const keys: AccountKey[] = [
      writable(market),
      writable(eventQueue),
      { pubkey: authority, isSigner: true, isWritable: false },
      writable(rewardTarget),
    ];
"""), (RW, "export class closeMarketInstruction {", """function writable(pubkey: PublicKey): AccountKey {
  return { pubkey, isSigner: false, isWritable: true };
}
export class closeMarketInstruction {"""))
js('js-s-keys-map', (RW, _CK, """    const keys: AccountKey[] = [market, eventQueue, authority, rewardTarget].map(
      (pubkey, i) => ({
        pubkey,
        isSigner: i === 2,
        isWritable: i !== 2,
      })
    );
"""))
js('js-s-keys-spread', (RW, _CK, """    const regions: AccountKey[] = [market, eventQueue].map((pubkey) => ({
      pubkey,
      isSigner: false,
      isWritable: true,
    }));
    const keys: AccountKey[] = [
      ...regions,
      { pubkey: authority, isSigner: true, isWritable: false },
      { pubkey: rewardTarget, isSigner: false, isWritable: true },
    ];
"""))
js('js-s-data-inline', (RW, """    const data = Buffer.from(this.serialize());
    let keys: AccountKey[] = [];
    keys.push({
      pubkey: market,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,""", """    const serialized = this.serialize();
    const data = Buffer.from(serialized);
    let keys: AccountKey[] = [];
    const marketKey: AccountKey = {
      pubkey: market,
      isSigner: false,
      isWritable: true,
    };
    keys.push(marketKey);
    keys.push({
      pubkey: eventQueue,
      isSigner: false,
      isWritable: true,
    });
    keys.push({
      pubkey: authority,"""))
js('js-s-price-shln', (UT, 'key.div(new BN(2).pow(new BN(64)))', 'key.div(new BN(1).shln(64))'))
js('js-s-price-const', (UT, 'key.div(new BN(2).pow(new BN(64)))', 'key.div(PRICE_UNIT)'), (UT, 'import BN from "bn.js";\n', 'import BN from "bn.js";\n\nconst PRICE_UNIT = new BN(2).pow(new BN(64));\n'))
js('js-s-create-rent-first', (BI, """  const createMarketAccount = SystemProgram.createAccount({
    fromPubkey: feePayer,
    lamports: await connection.getMinimumBalanceForRentExemption(
      MarketState.LEN
    ),
""", """  const marketRent = await connection.getMinimumBalanceForRentExemption(
    MarketState.LEN
  );
  const createMarketAccount = SystemProgram.createAccount({
    fromPubkey: feePayer,
    lamports: marketRent,
"""))
js('js-s-create-push-together', (BI, """  signers.push(bids);
  txInstructions.push(createBidsAccount);

""", ''), (BI, """  signers.push(asks);
  txInstructions.push(createAsksAccount);
""", """  signers.push(bids, asks);
  txInstructions.push(createBidsAccount, createAsksAccount);
"""))
js('js-s-create-nullish', (BI, """  if (programId === undefined) {
    programId = AAOB_ID;
  }
""", """  programId = programId ?? AAOB_ID;
"""))
