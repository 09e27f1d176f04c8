"""Planted changes: (id, property, what it needs, what it breaks, edits, demonstration).

An edit is (file under program/src, old text, new text[, which occurrence (0-based) | 'all']).
"""
NO = 'state/orderbook.rs'
EQ = 'state/event_queue.rs'
CB = 'state/critbit.rs'
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo, features=None, base='program/src/', kind='rust'):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                      features=features, base=base, kind=kind))


# ---------------------------------------------------------------- P01
seed('p01-cancel-asks-owner', 'P01',
     'a cancel whose asks account carries the right address but another owner',
     'cancel_order checks the owner of the bids account twice and of the asks account never',
     [('processor/cancel_order.rs', 'check_account_owner(self.asks,', 'check_account_owner(self.bids,')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let a = w.rest(ask(px(5), 10));
    let k = w.asks;
    w.accs.get_mut(&k).unwrap().owner = Pubkey::new_unique();
    assert_eq!(custom(&w.cancel(a)), Some(WRONG_ASKS_OWNER));
''')
seed('p01-owner-prefix', 'P01',
     'an account owned by a program whose address shares 16 leading bytes with the order book program',
     'account owners are compared on their first half only',
     [('utils.rs', 'account.owner.to_bytes() != owner', 'account.owner.to_bytes()[..16] != owner[..16]')],
     '''
    for n in 16..32 {
        let mut w = World::new(8, 8, 1, 1);
        let mut o = aob::ID.to_bytes();
        o[n] ^= 1;
        let k = w.market;
        w.accs.get_mut(&k).unwrap().owner = Pubkey::new_from_array(o);
        assert_eq!(custom(&w.order(ask(px(5), 10))), Some(WRONG_MARKET_OWNER));
        assert_eq!(custom(&w.close()), Some(WRONG_MARKET_OWNER));
    }
''')
seed('p01-consume-late-owner', 'P01',
     'a consume whose market account is foreign and holds an ill-tagged record',
     'consume_events interprets (and re-stamps) the market account before it checks who owns it',
     [('processor/consume_events.rs', '''    accounts.perform_checks(program_id)?;
    let mut market_data = accounts.market.data.borrow_mut();
    let market_state = MarketState::from_buffer(&mut market_data, AccountTag::Market)?;
''', '''    let mut market_data = accounts.market.data.borrow_mut();
    let market_state = MarketState::from_buffer(&mut market_data, AccountTag::Market)?;
    accounts.perform_checks(program_id)?;
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let k = w.market;
    w.accs.get_mut(&k).unwrap().owner = Pubkey::new_unique();
    w.data_mut(&k)[0] = 0;
    assert_eq!(custom(&w.consume(1)), Some(WRONG_MARKET_OWNER));
''')
seed('p01-mass-queue-owner-error', 'P01',
     'a mass cancel with a foreign event queue',
     'mass cancel only checks the event queue owner when it also has the wrong bids owner',
     [('processor/mass_cancel_orders.rs', '''        check_account_owner(
            self.event_queue,
            &program_id.to_bytes(),
            AoError::WrongEventQueueOwner,
        )?;
        check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)?;
''', '''        check_account_owner(
            self.event_queue,
            &program_id.to_bytes(),
            AoError::WrongEventQueueOwner,
        )
        .or_else(|_| {
            check_account_owner(self.bids, &program_id.to_bytes(), AoError::WrongBidsOwner)
        })?;
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let a = w.rest(ask(px(5), 10));
    let k = w.eq;
    w.accs.get_mut(&k).unwrap().owner = Pubkey::new_unique();
    assert_eq!(custom(&w.mass(&[a])), Some(WRONG_EVENT_QUEUE_OWNER));
''')
# ---------------------------------------------------------------- P02
seed('p02-key-prefix', 'P02',
     'a substituted account whose address shares its first 8 bytes with the recorded one',
     'account addresses are compared on their first 8 bytes only',
     [('utils.rs', 'account.key != key', 'account.key.to_bytes()[..8] != key.to_bytes()[..8]')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let mut o = w.asks.to_bytes();
    o[20] ^= 1;
    let forged = Pubkey::new_from_array(o);
    let a = w.accs[&w.asks].clone();
    w.accs.insert(forged, a);
    let real = w.asks;
    w.asks = forged;
    assert_eq!(custom(&w.order(ask(px(5), 10))), Some(WRONG_ASKS_ACCOUNT));
''')
seed('p02-close-asks-key', 'P02',
     'closing a market with the asks account of another market',
     'close_market compares the bids address twice and the asks address never',
     [('processor/close_market.rs',
       'check_account_key(accounts.asks, &market_state.asks, AoError::WrongAsksAccount)?;',
       'check_account_key(accounts.bids, &market_state.bids, AoError::WrongAsksAccount)?;')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let other = World::new(8, 8, 1, 1);
    w.accs.insert(other.asks, other.accs[&other.asks].clone());
    w.asks = other.asks;
    assert_eq!(custom(&w.close()), Some(WRONG_ASKS_ACCOUNT));
''')
seed('p02-consume-unchecked', 'P02',
     'consuming from the event queue of another market',
     'consume_events ignores the outcome of its address check',
     [('processor/consume_events.rs', 'check_accounts(&accounts, market_state)?;',
       'check_accounts(&accounts, market_state).ok();')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let other = World::new(8, 8, 1, 1);
    w.accs.insert(other.eq, other.accs[&other.eq].clone());
    w.eq = other.eq;
    assert_eq!(custom(&w.consume(1)), Some(WRONG_EVENT_QUEUE_ACCOUNT));
''')
seed('p02-cancel-late-binding', 'P02',
     'a cancel of an order that does not rest in a substituted book',
     'cancel_order removes the order before the book addresses are checked',
     [('processor/cancel_order.rs', '''    check_accounts(&accounts, market_state)?;

''', ''),
      ('processor/cancel_order.rs', '''    let total_base_qty = leaf_node.base_quantity;
''', '''    let total_base_qty = leaf_node.base_quantity;
    check_accounts(&accounts, market_state)?;
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let other = World::new(8, 8, 1, 1);
    w.accs.insert(other.asks, other.accs[&other.asks].clone());
    w.asks = other.asks;
    assert_eq!(custom(&w.cancel(7)), Some(WRONG_ASKS_ACCOUNT));
''')
# ---------------------------------------------------------------- P03
seed('p03-disabled-book', 'P03',
     'a book account that was disabled by closing its market',
     'the book view accepts any tag at or above the expected one, so a disabled book is accepted',
     [(CB, 'if buf[0] != expected_tag as u8 {', 'if buf[0] < expected_tag as u8 {')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let k = w.asks;
    w.data_mut(&k)[0] = AccountTag::Disabled as u8;
    assert_eq!(custom(&w.order(ask(px(5), 10))), Some(ACCOUNT_TAG_MISMATCH));
''')
seed('p03-initialise-one-used', 'P03',
     'creating a market with a fresh asks account and a bids account already in use',
     'market creation refuses used book accounts only when both are used',
     [(CB, '''        if asks_data[0] != AccountTag::Uninitialized as u8
            || bids_data[0] != AccountTag::Uninitialized as u8''',
       '''        if asks_data[0] != AccountTag::Uninitialized as u8
            && bids_data[0] != AccountTag::Uninitialized as u8''')],
     '''
    with_rent();
    let mut w = World::blank(8, 8);
    let k = w.bids;
    w.data_mut(&k)[0] = AccountTag::Bids as u8;
    let i = w.ix_create(1, 1);
    assert!(w.exec(&i, false).is_err());
''')
seed('p03-reopen-disabled-market', 'P03',
     'an instruction on a market that was closed',
     'a market record is also accepted when it carries the disabled tag, and is revived',
     [('state/market_state.rs', '''        if tag != &(expected_tag as u64) {''',
       '''        if *tag & AccountTag::Market as u64 != expected_tag as u64 & AccountTag::Market as u64 {''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let k = w.market;
    w.data_mut(&k)[0] = AccountTag::Disabled as u8;
    assert_eq!(custom(&w.consume(1)), Some(ACCOUNT_TAG_MISMATCH));
''')
# ---------------------------------------------------------------- P04
seed('p04-one-book-empty', 'P04',
     'closing a market with orders in exactly one of its books',
     'the emptiness test is satisfied by one empty book',
     [(NO, 'self.asks.header.leaf_count == 0 && self.bids.header.leaf_count == 0',
       'self.asks.header.leaf_count == 0 || self.bids.header.leaf_count == 0')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let a = w.rest(ask(px(5), 10));
    assert_eq!(custom(&w.close()), Some(MARKET_STILL_ACTIVE));
    w.cancel(a).unwrap();
    w.rest(bid(px(5), 10));
    assert_eq!(custom(&w.close()), Some(MARKET_STILL_ACTIVE));
''')
seed('p04-one-event-left', 'P04',
     'closing a market whose queue holds exactly one event',
     'the pending-event test is off by one',
     [('processor/close_market.rs', 'if event_queue.header.count != 0 {', 'if event_queue.peek_at(1).is_some() {')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    w.rest(ask(px(5), 10));
    w.order(bid(px(5), 10).stb(SelfTradeBehavior::CancelProvide).ioc()).unwrap();
    assert_eq!(w.events().len(), 1);
    assert_eq!(custom(&w.close()), Some(MARKET_STILL_ACTIVE));
''')
seed('p04-bids-not-disabled', 'P04',
     'reading the bids account of a closed market',
     'closing disables the asks account twice and leaves the bids account valid',
     [('processor/close_market.rs', '*bytemuck::from_bytes_mut(&mut bids_data[0..8])',
       '*bytemuck::from_bytes_mut(&mut asks_data[0..8])')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    w.close().unwrap();
    for k in [w.market, w.eq, w.bids, w.asks] {
        assert_eq!(u64at(w.data(&k), 0), AccountTag::Disabled as u64);
    }
''')
# ---------------------------------------------------------------- P05
seed('p05-mass-parse-order', 'P05',
     'a mass cancel built with the published builder',
     'mass cancel parses the asks account before the bids account, unlike its builder',
     [('processor/mass_cancel_orders.rs', '''            bids: next_account_info(accounts_iter)?,
            asks: next_account_info(accounts_iter)?,
''', '''            asks: next_account_info(accounts_iter)?,
            bids: next_account_info(accounts_iter)?,
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let a = w.rest(ask(px(5), 10));
    w.mass(&[a]).unwrap();
''')
seed('p05-mass-readonly-asks', 'P05',
     'a mass cancel of asks on chain, where a read-only account cannot be written',
     'the mass cancel builder lists the asks account as read-only',
     [('processor/mass_cancel_orders.rs', '''    #[cons(writable)]
    pub asks: &'a T,''', '''    pub asks: &'a T,''')],
     '''
    let w = World::new(8, 8, 1, 1);
    let i = w.ix_mass(&[1]);
    let m = i.accounts.iter().find(|m| m.pubkey == w.asks).unwrap();
    assert!(m.is_writable);
''')
seed('p05-mass-register-readonly', 'P05',
     'a mass cancel on chain, where the register cannot be written if it is read-only',
     'the mass cancel builder appends the register account as read-only',
     [('instruction.rs', '''    i.accounts.push(AccountMeta {
        pubkey: register_account,
        is_signer: false,
        is_writable: true,
    });
    i
}''', '''    i.accounts
        .push(AccountMeta::new_readonly(register_account, false));
    i
}''', 5)],
     '''
    let w = World::new(8, 8, 1, 1);
    for i in [w.ix_mass(&[1]), w.ix_cancel(1), w.ix_consume(1), w.ix_close(), w.ix_create(1, 1)] {
        let m = i.accounts.last().unwrap();
        assert_eq!(m.pubkey, w.register);
        assert!(m.is_writable);
    }
''')
seed('p05-dispatch-masked', 'P05',
     'an instruction code beyond the known ones',
     'the dispatcher only looks at the low three bits of the instruction code',
     [('processor.rs', 'FromPrimitive::from_u8(instruction_data[0])',
       'FromPrimitive::from_u8(instruction_data[0] & 7)')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let mut i = w.ix_consume(0);
    i.data[0] |= 8;
    assert_eq!(
        w.exec(&i, false),
        Err(Fail::Err(ProgramError::InvalidInstructionData))
    );
''')
# ---------------------------------------------------------------- P06
seed('p06-rent-asks', 'P06',
     'creating a market with an asks account that is not rent exempt',
     'the rent check looks at the bids account twice',
     [('processor/create_market.rs', 'check_rent_exempt(accounts.asks)?;', 'check_rent_exempt(accounts.bids)?;')],
     '''
    with_rent();
    let mut w = World::blank(8, 8);
    let k = w.asks;
    w.accs.get_mut(&k).unwrap().lamports = 0;
    let i = w.ix_create(1, 1);
    assert!(w.exec(&i, false).is_err());
''')
seed('p06-zero-tick', 'P06',
     'creating a market with a zero tick size and a non-zero minimum order size',
     'market creation only fails when both parameters are zero',
     [('processor/create_market.rs', 'min_base_order_size == 0 || tick_size == 0',
       'min_base_order_size == 0 && tick_size == 0')],
     '''
    with_rent();
    for (m, t) in [(0, 1), (1, 0), (0, 0)] {
        let mut w = World::blank(8, 8);
        let i = w.ix_create(m, t);
        assert!(w.exec(&i, false).is_err());
    }
''')
seed('p06-four-event-slots', 'P06',
     'creating a market with an event queue of four slots',
     'the minimum number of event slots is four instead of five',
     [(EQ, 'account_len < HEADER_OFFSET + 5 * event_size', 'account_len <= HEADER_OFFSET + 3 * event_size')],
     '''
    with_rent();
    quiet();
    for n in 0..5 {
        let mut w = World::blank(8, n);
        let i = w.ix_create(1, 1);
        assert!(w.exec(&i, false).is_err(), "{} slots", n);
    }
    let mut w = World::blank(8, 5);
    let i = w.ix_create(1, 1);
    w.exec(&i, false).unwrap();
''')
seed('p06-market-size', 'P06',
     'creating a market in an account larger than a market record',
     'market creation only rejects accounts that are too small',
     [('state/market_state.rs', 'account_data.len() != 8 + MarketState::LEN',
       'account_data.len() < 8 + MarketState::LEN'),
      ('state/market_state.rs', 'let (_, data) = account_data.split_at_mut(8);',
       'let (_, data) = account_data[..8 + MarketState::LEN].split_at_mut(8);')],
     '''
    with_rent();
    let mut w = World::blank(8, 8);
    let k = w.market;
    w.accs.get_mut(&k).unwrap().data = Buf::new(128);
    let i = w.ix_create(1, 1);
    assert!(w.exec(&i, false).is_err());
''')
# ---------------------------------------------------------------- P07
seed('p07-tick-only-when-posting', 'P07',
     'an order that may not be posted, at a price off the tick',
     'the tick size is only checked for orders that may be posted',
     [('processor/new_order.rs', 'if params.limit_price % market_state.tick_size != 0 {',
       'if params.post_allowed && params.limit_price % market_state.tick_size != 0 {')],
     '''
    let mut w = World::new(8, 8, 1, 10);
    assert_eq!(custom(&w.order(ask(25, 100))), Some(INVALID_LIMIT_PRICE));
    assert_eq!(custom(&w.order(ask(25, 100).ioc())), Some(INVALID_LIMIT_PRICE));
''')
seed('p07-round-ask-exact', 'P07',
     'rounding an ask price that already is a multiple of the tick size',
     'the rounding helper moves exact ask prices up one tick',
     [('utils.rs', 'Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),',
       'Side::Ask => tick_size * (limit_price / tick_size + 1),')],
     '''
    for p in 0..50u64 {
        let a = aob::utils::round_price(7, p, Side::Ask);
        assert!(a >= p && a < p + 7 && a % 7 == 0);
        let b = aob::utils::round_price(7, p, Side::Bid);
        assert!(b <= p && b + 7 > p && b % 7 == 0);
    }
''')
seed('p07-zero-price-bid', 'P07',
     'a postable bid at price zero',
     'the lower price bound is only enforced for asks',
     [('processor/new_order.rs', 'if params.post_allowed && params.limit_price < market_state.tick_size {',
       '''if params.post_allowed
        && params.side == Side::Ask
        && params.limit_price < market_state.tick_size
    {''')],
     '''
    let mut w = World::new(8, 8, 1, 10);
    assert_eq!(custom(&w.order(ask(0, 100))), Some(INVALID_LIMIT_PRICE));
    assert_eq!(custom(&w.order(bid(0, 100))), Some(INVALID_LIMIT_PRICE));
''')
# ---------------------------------------------------------------- P08
seed('p08-integer-crossing', 'P08',
     'a bid and an ask whose prices differ only in the fractional part',
     'a taker bid crosses when the integer parts of the prices match',
     [(NO, 'Side::Bid => limit_price >= trade_price,',
       'Side::Bid => limit_price >> 32 >= trade_price >> 32,')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    w.rest(ask(px(5) + 100, 10).user(2));
    let s = w.order(bid(px(5), 10).ioc()).unwrap();
    assert_eq!(s.base, 0);
    assert!(w.events().is_empty());
''')
seed('p08-post-only-self-cancel', 'P08',
     'a post-only order that crosses an order of its own, under cancel-provide',
     'post-only is tested after the self-trade policy, so a post-only order removes a resting order',
     [(NO, 'if post_only || !crossed {', 'if !crossed {'),
      (NO, '            let maker_callback_info = &opposite',
       '''            if post_only {
                break;
            }

            let maker_callback_info = &opposite''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let a = w.rest(ask(px(5), 10));
    w.order(bid(px(6), 10).post_only().stb(SelfTradeBehavior::CancelProvide)).unwrap();
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 1)]);
    assert!(w.events().is_empty());
''')
# ---------------------------------------------------------------- P09
seed('p09-fraction-dropped', 'P09',
     'a maker bid at a price with a small fractional part, and a large fill',
     'a taker ask trades at the maker price without its last 16 fractional bits',
     [(NO, 'Side::Ask => fp32_mul_floor(base_trade_qty, trade_price),',
       'Side::Ask => fp32_mul_floor(base_trade_qty, (trade_price >> 16) << 16),')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    w.rest(bid(px(7) + (1 << 15), 1 << 20).user(2));
    let s = w.order(ask(px(5), 1 << 20).ioc()).unwrap();
    assert_eq!(s.quote, (7 << 20) + 8);
''')
# ---------------------------------------------------------------- P10
seed('p10-self-fill-unrecorded', 'P10',
     'a self trade under decrement-take',
     'a fill of a taker against its own order is not enqueued',
     [(NO, '''            event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .map_err(|_| AoError::EventQueueFull)?;
''', '''            let is_self_trade =
                callback_info.as_callback_id() == maker_callback_info.as_callback_id();
            if !is_self_trade {
                event_queue
                    .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                    .map_err(|_| AoError::EventQueueFull)?;
            }
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let b = w.rest(bid(px(7), 10));
    w.order(ask(px(5), 4).ioc()).unwrap();
    assert_eq!(w.events().len(), 1);
    assert_eq!(w.book(Side::Bid), vec![(b, 6, 1)]);
''')
seed('p10-callbacks-swapped', 'P10',
     'reading the callback information of a fill of a taker ask',
     'for a taker ask that may not be posted, the callback information of maker and taker change places',
     [(NO, '''                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
''', '''                .push_back(
                    maker_fill,
                    Some(if side == Side::Bid || post_allowed {
                        maker_callback_info
                    } else {
                        &callback_info
                    }),
                    Some(if side == Side::Bid || post_allowed {
                        &callback_info
                    } else {
                        maker_callback_info
                    }),
                )
''')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let b = w.rest(bid(px(7), 10).user(2));
    w.order(ask(px(5), 4).ioc()).unwrap();
    assert_eq!(
        w.events(),
        vec![Ev::Fill { taker_side: 1, maker: b, base: 4, quote: 28, maker_cb: 2, taker_cb: 1 }]
    );
''')
seed('p10-maker-id-truncated', 'P10',
     'a fill against an order whose price has a small fractional part',
     'the maker order id loses the last bits of its price',
     [(NO, '[o as u64, (o >> 64) as u64]\n            };\n\n            let maker_fill',
       '[o as u64, (o >> 64) as u64 & !0xffff]\n            };\n\n            let maker_fill')],
     '''
    let mut w = World::new(8, 8, 1, 1);
    let b = w.rest(bid(px(7) + 3, 10).user(2));
    w.order(ask(px(5), 4).ioc()).unwrap();
    match &w.events()[0] {
        Ev::Fill { maker, .. } => assert_eq!(*maker, b),
        e => panic!("{:?}", e),
    }
''')
# ---------------------------------------------------------------- P11
seed('p11-rounded-unit-uncounted', 'P11',
     'a taker bid that fills at prices with a fraction, bounded by its quote cap',
     'the unit a bid pays for rounding up is not deducted from its remaining quote, so the cap can be exceeded',
     [(NO, '            quote_qty_remaining -= quote_maker_qty;\n',
       '            quote_qty_remaining -=\n'
       '                fp32_mul_floor(base_trade_qty, trade_price).unwrap_or(quote_maker_qty);\n')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    for _ in 0..4 {
        w.rest(ask(px(5) + (1 << 31), 1).user(2));
    }
    w.order(bid(px(6), 100).quote(17).ioc()).unwrap();
    let q: u64 = w.events().iter().map(|e| match e { Ev::Fill { quote, .. } => *quote, _ => 0 }).sum();
    assert!(q <= 17, "{}", q);
''')
seed('p11-cap-restored', 'P11',
     'a taker that fills, then cancels one of its own orders, then fills again',
     'a self-trade cancellation gives the taker its whole base cap back',
     [(NO, '''                    match_limit -= 1;

                    continue;''', '''                    match_limit -= 1;
                    base_qty_remaining = max_base_qty;

                    continue;''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.rest(ask(px(6), 10).user(1));
    w.rest(ask(px(7), 100).user(2));
    w.order(bid(px(8), 20).stb(SelfTradeBehavior::CancelProvide).ioc()).unwrap();
    let q: u64 = w.events().iter().map(|e| match e { Ev::Fill { base, .. } => *base, _ => 0 }).sum();
    assert_eq!(q, 20);
''')
# ---------------------------------------------------------------- P12
seed('p12-dust-counted', 'P12',
     'a taker stopped by its quote cap that leaves the maker with less than the minimum size',
     'the leftover of a maker removed as dust is counted as traded by the taker',
     [(NO, '''                let best_offer_id = best_bo_ref.order_id();
                let cur_side''', '''                let best_offer_id = best_bo_ref.order_id();
                base_qty_remaining = base_qty_remaining.saturating_sub(best_bo_ref.base_quantity);
                let cur_side''')],
     '''
    let mut w = World::new(8, 20, 5, 1);
    w.rest(ask(px(5), 12).user(2));
    let s = w.order(bid(px(5), 1000).quote(50).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (10, 50));
''')
seed('p12-evicting-quote', 'P12',
     'an order that is posted by evicting another one',
     'the quote value of an order posted by eviction is left out of the summary',
     [(NO, '''        base_qty_remaining -= base_qty_to_post;
        quote_qty_remaining -= match side {
            Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
            Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
        }
        .ok_or(AoError::NumericalOverflow)?;
''', '''        base_qty_remaining -= base_qty_to_post;
        if !evicted {
            quote_qty_remaining -= match side {
                Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),
                Side::Ask => fp32_mul_floor(base_qty_to_post, limit_price),
            }
            .ok_or(AoError::NumericalOverflow)?;
        }
'''),
      (NO, '        let insert_result = self.get_tree(side).insert_leaf(&new_leaf);\n',
       '        let insert_result = self.get_tree(side).insert_leaf(&new_leaf);\n'
       '        let evicted = insert_result.is_err() && side == Side::Bid && base_qty_remaining < max_base_qty;\n')],
     '''
    let mut w = World::new(2, 20, 1, 1);
    w.rest(bid(px(5), 10).user(2));
    w.rest(bid(px(6), 10).user(2));
    w.rest(ask(px(8), 10).user(2));
    let s = w.order(bid(px(8), 30)).unwrap();
    assert_eq!((s.base, s.quote, s.posted), (30, 240, 20));
''')
# ---------------------------------------------------------------- P13
seed('p13-fill-bid-floor', 'P13',
     'a taker bid whose fill is not worth a whole number of quote units',
     'the quote of a taker bid is rounded down',
     [(NO, 'Side::Bid => fp32_mul_ceil(base_trade_qty, trade_price),',
       'Side::Bid => fp32_mul_floor(base_trade_qty, trade_price),')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5) + (1 << 30), 3).user(2));
    let s = w.order(bid(px(6), 3).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (3, 16));
''')
seed('p13-post-bid-floor', 'P13',
     'a posted bid that is not worth a whole number of quote units',
     'the quote locked by a posted bid is rounded down',
     [(NO, 'Side::Bid => fp32_mul_ceil(base_qty_to_post, limit_price),',
       'Side::Bid => fp32_mul_floor(base_qty_to_post, limit_price),')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let s = w.order(bid(px(5) + (1 << 30), 3)).unwrap();
    assert_eq!((s.base, s.quote), (3, 16));
    let s = w.order(ask(px(6) + (1 << 30), 3)).unwrap();
    assert_eq!((s.base, s.quote), (3, 18));
''')
seed('p13-cancel-ceil', 'P13',
     'cancelling an order that is not worth a whole number of quote units',
     'the quote reported by a cancellation is rounded up',
     [('processor/cancel_order.rs', 'fp32_mul_floor', 'fp32_mul_ceil', 'all')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let b = w.rest(bid(px(5) + (1 << 30), 3));
    let s = w.cancel(b).unwrap();
    assert_eq!((s.base, s.quote), (3, 15));
''')
seed('p13-cancel-overflow-zero', 'P13',
     'cancelling an order whose quote value does not fit 64 bits',
     'an overflowing quote value is reported as the largest amount instead of failing',
     [('processor/cancel_order.rs', '.ok_or(AoError::NumericalOverflow)?;', '.unwrap_or(u64::MAX);')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let b = w.rest(bid(px(5), 3));
    let k = w.bids;
    put64(w.data_mut(&k), SLAB_HEAD + 16, u64::MAX);
    assert_eq!(custom(&w.cancel(b)), Some(NUMERICAL_OVERFLOW));
''')
# ---------------------------------------------------------------- P14
seed('p14-zero-match-limit', 'P14',
     'an order with match limit zero that crosses the book',
     'an order whose match limit is zero is posted even if it crosses',
     [(NO, 'let mut crossed = true;', 'let mut crossed = false;')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(6), 10).limit(0)).unwrap();
    assert_eq!((s.base, s.id), (0, None));
    assert!(w.book(Side::Bid).is_empty());
''')
seed('p14-worthless-crossing-post', 'P14',
     'a taker ask against a bid at which its amount is worth nothing',
     'an ask stopped by a worthless trade is posted although it crosses the best bid',
     [(NO, '''            if quote_maker_qty == 0 {
                break;
            }
''', '''            if quote_maker_qty == 0 {
                crossed = false;
                break;
            }
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(1 << 28, 100).user(2));
    let s = w.order(ask(1 << 28, 3)).unwrap();
    assert_eq!((s.base, s.id), (0, None));
    assert!(w.book(Side::Ask).is_empty());
''')
seed('p14-min-size-before-quote-cap', 'P14',
     'a remainder above the minimum size whose quote-bounded part is below it',
     'the minimum size is compared with the remaining base, not with what is posted',
     [(NO, 'if crossed || !post_allowed || base_qty_to_post < min_base_order_size {',
       'if crossed || !post_allowed || base_qty_remaining < min_base_order_size {')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let s = w.order(bid(px(5), 1000).quote(20)).unwrap();
    assert_eq!((s.base, s.id), (0, None));
    assert!(w.book(Side::Bid).is_empty());
''')
seed('p14-callback-on-reused-slot', 'P14',
     'posting into a slot that was used before by another user',
     'a posted order keeps the callback information already stored in its slot',
     [(NO, '*self.get_tree(side).get_callback_info_mut(k) = callback_info;',
       '''if self.get_tree(side).header.leaf_count > 1 || k == 0 {
            *self.get_tree(side).get_callback_info_mut(k) = callback_info;
        }''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(3));
    let b = w.rest(ask(px(6), 10).user(4));
    w.cancel(a).unwrap();
    w.cancel(b).unwrap();
    let c = w.rest(ask(px(6), 10).user(5));
    assert_eq!(w.book(Side::Ask), vec![(c, 10, 5)]);
''')
# ---------------------------------------------------------------- P15
seed('p15-self-cancel-free', 'P15',
     'an order that cancels several orders of its own under cancel-provide',
     'self-trade cancellations are not counted against the match limit',
     [(NO, '''                        .unwrap();

                    match_limit -= 1;

                    continue;''', '''                        .unwrap();

                    continue;''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    for p in 5..8 {
        w.rest(ask(px(p), 10));
    }
    w.order(bid(px(9), 10).limit(1).stb(SelfTradeBehavior::CancelProvide)).unwrap();
    assert_eq!(w.book(Side::Ask).len(), 2);
''')
seed('p15-limit-reached-posts', 'P15',
     'an order that reaches its match limit exactly when it has emptied the best level',
     'after the last allowed match, the crossing flag is refreshed to not crossing and the rest is posted',
     [(NO, '''            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''            if match_limit == 0 {
                crossed = crossed && base_qty_remaining == max_base_qty;
                break;
            }
            let best_bo_h''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(6), 30).limit(1)).unwrap();
    assert_eq!((s.base, s.id), (10, None));
''')
# ---------------------------------------------------------------- P16
seed('p16-abort-stops', 'P16',
     'an order that meets one of its own under abort, after a fill',
     'abort ends the matching silently instead of failing the order',
     [(NO, 'return Err(AoError::WouldSelfTrade);',
       'if base_qty_remaining < max_base_qty {\n                            break;\n                        }\n'
       '                        return Err(AoError::WouldSelfTrade);')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.rest(ask(px(6), 10).user(1));
    let r = w.order(bid(px(6), 20).stb(SelfTradeBehavior::AbortTransaction));
    assert_eq!(custom(&r), Some(WOULD_SELF_TRADE));
''')
seed('p16-first-match-only', 'P16',
     'an order whose own resting order is not the first one it meets',
     'the self-trade policy is applied until the first fill only',
     [(NO, 'if self_trade_behavior != SelfTradeBehavior::DecrementTake {',
       'if self_trade_behavior != SelfTradeBehavior::DecrementTake\n'
       '                && base_qty_remaining == max_base_qty\n            {')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let own = w.rest(ask(px(6), 10).user(1));
    let s = w.order(bid(px(6), 20).stb(SelfTradeBehavior::CancelProvide).ioc()).unwrap();
    assert_eq!(s.base, 10);
    assert!(w.events().contains(&Ev::Out { side: 1, id: own, base: 10, cb: 1 }));
''')
seed('p16-neighbour-identity', 'P16',
     'makers of several users in slots that were reused out of order',
     'the identity of the best order is read from the newest slot of the book',
     [(NO, '''                    == opposite_slab.callback_infos[best_bo_h as usize].as_callback_id();''',
       '''                    == opposite_slab.callback_infos
                        [best_bo_h.min(opposite_slab.header.leaf_count - 1) as usize]
                        .as_callback_id();''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let x = w.rest(ask(px(4), 10).user(1));
    w.rest(ask(px(5), 10).user(2));
    w.cancel(x).unwrap();
    let s = w.order(bid(px(6), 10).stb(SelfTradeBehavior::CancelProvide).ioc()).unwrap();
    assert_eq!(s.base, 10);
''')
# ---------------------------------------------------------------- P17
seed('p17-at-minimum-removed', 'P17',
     'a fill that leaves the maker with exactly the minimum size',
     'a maker left with exactly the minimum size is removed',
     [(NO, 'if best_bo_ref.base_quantity < min_base_order_size {',
       'if best_bo_ref.base_quantity <= min_base_order_size {')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let a = w.rest(ask(px(5), 20).user(2));
    w.order(bid(px(6), 10).ioc()).unwrap();
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2)]);
''')
seed('p17-only-empty-removed', 'P17',
     'a fill that leaves the maker with a non-zero amount below the minimum size',
     'only makers that are completely filled are removed',
     [(NO, 'if best_bo_ref.base_quantity < min_base_order_size {', 'if best_bo_ref.base_quantity == 0 {')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let a = w.rest(ask(px(5), 20).user(2));
    w.order(bid(px(6), 15).ioc()).unwrap();
    assert!(w.book(Side::Ask).is_empty());
    assert_eq!(w.events()[1], Ev::Out { side: 1, id: a, base: 5, cb: 2 });
''')
# ---------------------------------------------------------------- P18
seed('p18-evict-equal', 'P18',
     'a bid at exactly the price of the worst bid of a full book',
     'a bid evicts the worst bid of the same price',
     [(NO, 'Side::Bid => boot_candidate_price < limit_price,', 'Side::Bid => boot_candidate_price <= limit_price,')],
     '''
    let mut w = World::new(2, 20, 1, 1);
    let a = w.rest(bid(px(5), 10).user(2));
    let b = w.rest(bid(px(6), 10).user(2));
    let s = w.order(bid(px(5), 10)).unwrap();
    assert_eq!(s.id, None);
    assert_eq!(w.book(Side::Bid), vec![(a, 10, 2), (b, 10, 2)]);
    assert!(w.events().is_empty());
''')
seed('p18-evict-before-compare', 'P18',
     'an order that is not better than the worst order of a full book',
     'the worst order is removed before the prices are compared',
     [(NO, '''            if should_boot {
                let (order, callback_info_booted) = slab.remove_by_key(boot_candidate_key).unwrap();
''', '''            let (order, callback_info_booted) = slab.remove_by_key(boot_candidate_key).unwrap();
            if should_boot {
''')],
     '''
    let mut w = World::new(2, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(6), 10).user(2));
    let s = w.order(ask(px(7), 10)).unwrap();
    assert_eq!(s.id, None);
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2), (b, 10, 2)]);
''')
seed('p18-evict-wrong-slot', 'P18',
     'a full ask book whose root splits unevenly',
     'the eviction candidate of an ask is the maximum of the right half only when the root has two leaves',
     [(NO, 'Side::Ask => slab.find_max().unwrap(),',
       '''Side::Ask => {
                    let worst = slab.find_max().unwrap();
                    (0..slab.header.leaf_count)
                        .max_by_key(|h| slab.leaf_nodes[*h as usize].base_quantity)
                        .filter(|h| slab.leaf_nodes[*h as usize].price() > limit_price)
                        .filter(|h| slab.leaf_nodes[*h as usize].base_quantity > u32::MAX as u64)
                        .unwrap_or(worst)
                }''')],
     '''
    let mut w = World::new(3, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let big = w.rest(ask(px(6), 1 << 33).user(2));
    let worst = w.rest(ask(px(7), 10).user(2));
    w.order(ask(px(4), 10)).unwrap();
    assert_eq!(w.events(), vec![Ev::Out { side: 1, id: worst, base: 10, cb: 2 }]);
''')
# ---------------------------------------------------------------- P19
seed('p19-dust-amount', 'P19',
     'a maker removed with a non-zero leftover',
     'the out event of a maker removed as dust always reports zero',
     [(NO, '''                    side: cur_side as u8,
                    order_id,
                    base_size: best_bo_ref.base_quantity,''', '''                    side: cur_side as u8,
                    order_id,
                    base_size: 0,''')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let a = w.rest(ask(px(5), 20).user(2));
    w.order(bid(px(6), 15).ioc()).unwrap();
    assert_eq!(w.events()[1], Ev::Out { side: 1, id: a, base: 5, cb: 2 });
''')
seed('p19-dust-side', 'P19',
     'a bid removed as dust after a fill',
     'the out event of a maker removed with a leftover names the side of the taker',
     [(NO, 'side: cur_side as u8,',
       'side: if best_bo_ref.base_quantity == 0 { cur_side as u8 } else { side as u8 },')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let b = w.rest(bid(px(5), 20).user(2));
    w.order(ask(px(5), 15).ioc()).unwrap();
    assert_eq!(w.events()[1], Ev::Out { side: 0, id: b, base: 5, cb: 2 });
''')
seed('p19-evict-silent', 'P19',
     'an eviction while the event queue is full',
     'an eviction that cannot be announced goes through',
     [(NO, '''                event_queue
                    .push_back(out, Some(callback_info_booted), None)
                    .map_err(|_| AoError::EventQueueFull)?;
''', '''                if event_queue
                    .push_back(out, Some(callback_info_booted), None)
                    .is_err()
                {
                    msg!("The event queue is full");
                }
''')],
     '''
    let mut w = World::new(2, 5, 1, 1);
    w.rest(bid(px(5), 10).user(2));
    w.rest(bid(px(6), 10).user(2));
    for _ in 0..5 {
        w.order(bid(px(7), 1)).unwrap();
        let e = w.events().len();
        if e == 5 {
            break;
        }
        let worst = w.book(Side::Bid)[0].0;
        w.cancel(worst).unwrap();
        w.rest(bid(px(5), 10).user(2));
    }
    assert_eq!(w.events().len(), 5);
    let before = w.book(Side::Bid);
    let r = w.order(bid(px(9), 1));
    assert_eq!(custom(&r), Some(EVENT_QUEUE_FULL));
    assert_eq!(w.book(Side::Bid), before);
''')
seed('p19-self-cancel-amount', 'P19',
     'a self-trade cancellation of an order larger than the taker',
     'the out event of a self-trade cancellation reports the traded amount instead of what was removed',
     [(NO, '''                        side: side.opposite() as u8,
                        order_id,
                        base_size: best_bo_ref.base_quantity,''', '''                        side: side.opposite() as u8,
                        order_id,
                        base_size: offer_size.min(max_base_qty.saturating_mul(8)),''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 100));
    w.order(bid(px(5), 10).stb(SelfTradeBehavior::CancelProvide).ioc()).unwrap();
    assert_eq!(w.events(), vec![Ev::Out { side: 1, id: a, base: 100, cb: 1 }]);
''')
# ---------------------------------------------------------------- P20
seed('p20-sequence-restarts', 'P20',
     'posting after the event queue was drained',
     'draining the event queue restarts the order sequence, so ids repeat',
     [(EQ, '''            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
        if self.header.count == 0 && self.header.head == 0 {
            self.header.seq_num = 0;
        }
''')],
     '''
    let mut w = World::new(8, 5, 1, 1);
    let a = w.rest(ask(px(9), 10).user(2));
    w.consume(1).unwrap();
    let b = w.rest(ask(px(9), 10).user(2));
    assert_ne!(a, b);
    assert_eq!(w.book(Side::Ask).len(), 2);
''')
seed('p20-ask-sequence-shared', 'P20',
     'two asks at the same price without a bid in between',
     'asks do not advance the sequence number',
     [(EQ, '''        let seq_num = self.gen_seq_num();
        let upper''', '''        let seq_num = match side {
            Side::Bid => self.gen_seq_num(),
            Side::Ask => self.header.seq_num,
        };
        let upper''')],
     '''
    let mut w = World::new(8, 5, 1, 1);
    let a = w.rest(ask(px(9), 10).user(2));
    let b = w.rest(ask(px(9), 10).user(3));
    assert_ne!(a, b);
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2), (b, 10, 3)]);
''')
seed('p20-price-above-2-62', 'P20',
     'an ask at a very high price',
     'the price loses its top bit in the order id',
     [(EQ, 'let upper = (limit_price as u128) << 64;', 'let upper = ((limit_price << 1) as u128) << 63;')],
     '''
    let mut w = World::new(8, 5, 1, 1);
    let a = w.rest(ask((1 << 63) + 5, 1));
    assert_eq!((a >> 64) as u64, (1 << 63) + 5);
''')
# ---------------------------------------------------------------- P21
seed('p23-head-reset', 'P23',
     'consuming past the physical end of the queue while events stay pending',
     'consumption that passes the end of the queue moves the head to slot zero',
     [(EQ, '''        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
''', '''        self.header.head += capped_number_of_entries_to_pop;
        if self.header.head >= self.events.len() as u64 {
            self.header.head = 0;
        }
''')],
     '''
    let mut w = World::new(8, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    for n in 0..3 {
        w.order(bid(px(5), 10 + n).ioc()).unwrap();
    }
    w.consume(3).unwrap();
    for n in 0..4 {
        w.order(bid(px(5), 20 + n).ioc()).unwrap();
    }
    w.consume(3).unwrap();
    match &w.events()[..] {
        [Ev::Fill { base, .. }] => assert_eq!(*base, 23),
        e => panic!("{:?}", e),
    }
''')
seed('p21-iter-stops-at-end', 'P21',
     'iterating a queue whose pending events wrap around',
     'iteration stops at the physical end of the queue',
     [(EQ, '            remaining: self.header.count,',
       '            remaining: self\n                .header\n                .count\n                .min(self.events.len() as u64 - self.header.head),')],
     '''
    use aob::state::event_queue::EventQueue;
    let mut w = World::new(8, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    for _ in 0..4 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    w.consume(4).unwrap();
    for _ in 0..4 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    let k = w.eq;
    let q = EventQueue::<[u8; 32]>::from_buffer(w.data_mut(&k), AccountTag::EventQueue).unwrap();
    assert_eq!(q.iter().count(), 4);
''')
seed('p21-peek-without-wrap', 'P21',
     'peeking at an event that lies beyond the physical end of the queue',
     'peeking past the end reads the last slot',
     [(EQ, '''        let event_idx = (self.header.head.checked_add(index).unwrap() as usize) % self.events.len();
''', '''        let event_idx =
            (self.header.head.checked_add(index).unwrap() as usize).min(self.events.len() - 1);
''')],
     '''
    use aob::state::event_queue::{EventQueue, EventRef};
    let mut w = World::new(8, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    for _ in 0..4 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    w.consume(4).unwrap();
    for n in 0..4 {
        w.order(bid(px(5), 10 + n).ioc()).unwrap();
    }
    let k = w.eq;
    let q = EventQueue::<[u8; 32]>::from_buffer(w.data_mut(&k), AccountTag::EventQueue).unwrap();
    for n in 0..4 {
        match q.peek_at(n).unwrap() {
            EventRef::Fill(f) => assert_eq!(f.event.base_size, 10 + n),
            _ => panic!(),
        }
    }
    assert!(q.peek_at(4).is_none());
''')
# ---------------------------------------------------------------- P22
seed('p22-full-needs-head-zero', 'P22',
     'a queue filled up after some events were consumed',
     'the queue only counts as full when its tail touches the physical end',
     [(EQ, 'self.header.count as usize == self.events.len()',
       '(self.header.head + self.header.count) as usize == self.events.len() && self.header.head == 0')],
     '''
    let mut w = World::new(8, 5, 10, 1);
    w.rest(ask(px(5), 10000).user(2));
    for _ in 0..3 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    w.consume(2).unwrap();
    for _ in 0..4 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    assert_eq!(w.events().len(), 5);
    assert_eq!(custom(&w.order(bid(px(5), 11).ioc())), Some(EVENT_QUEUE_FULL));
''')
seed('p22-full-stops-matching', 'P22',
     'an order that fills the event queue while it is matching',
     'an order that meets a full event queue ends successfully',
     [(NO, '''            event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .map_err(|_| AoError::EventQueueFull)?;
''', '''            if event_queue
                .push_back(maker_fill, Some(maker_callback_info), Some(&callback_info))
                .is_err()
            {
                break;
            }
''')],
     '''
    let mut w = World::new(20, 5, 1, 1);
    for p in 5..15 {
        w.rest(ask(px(p), 10).user(2));
    }
    w.order(bid(px(20), 5).ioc()).unwrap();
    let r = w.order(bid(px(20), 100).ioc());
    assert_eq!(custom(&r), Some(EVENT_QUEUE_FULL));
''')
seed('p22-overwrite-oldest', 'P22',
     'enqueueing into a full queue',
     'a full queue drops its oldest event to make room for an out event',
     [(EQ, '''        if self.full() {
            return Err(event);
        }
''', '''        if self.full() {
            if taker_callback_info.is_some() || maker_callback_info.is_none() {
                return Err(event);
            }
            self.header.head = (self.header.head + 1) % self.events.len() as u64;
            self.header.count -= 1;
        }
''')],
     '''
    let mut w = World::new(20, 5, 10, 1);
    for p in 5..15 {
        w.rest(ask(px(p), 10));
    }
    let r = w.order(bid(px(20), 100).ioc().stb(SelfTradeBehavior::CancelProvide));
    assert_eq!(custom(&r), Some(EVENT_QUEUE_FULL));
''')
# ---------------------------------------------------------------- P23
seed('p23-head-uncapped', 'P23',
     'consuming more events than are pending',
     'the head advances by the requested number although fewer events were pending',
     [(EQ, '(self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);',
       '(self.header.head + number_of_entries_to_pop) % (self.events.len() as u64);')],
     '''
    let mut w = World::new(20, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    for _ in 0..2 {
        w.order(bid(px(5), 10).ioc()).unwrap();
    }
    w.consume(3).unwrap();
    assert_eq!(u64at(w.data(&w.eq), 8), 2);
    assert_eq!(u64at(w.data(&w.eq), 16), 0);
''')
seed('p23-at-least-one', 'P23',
     'consuming zero events',
     'consuming zero events consumes one',
     [('processor/consume_events.rs', 'event_queue.pop_n(params.number_of_entries_to_consume);',
       'event_queue.pop_n(params.number_of_entries_to_consume.max(1));')],
     '''
    let mut w = World::new(20, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    w.order(bid(px(5), 10).ioc()).unwrap();
    w.consume(0).unwrap();
    assert_eq!(w.events().len(), 1);
''')
seed('p23-rewind-when-empty', 'P23',
     'an order posted on a drained queue whose head is not at slot zero',
     'generating an order id on an empty queue rewinds its head',
     [(EQ, '''        let seq_num = self.gen_seq_num();
        let upper''', '''        let seq_num = self.gen_seq_num();
        if self.header.count == 0 {
            self.header.head = 0;
        }
        let upper''')],
     '''
    let mut w = World::new(20, 5, 10, 1);
    w.rest(ask(px(5), 1000).user(2));
    w.order(bid(px(5), 10).ioc()).unwrap();
    w.consume(1).unwrap();
    assert_eq!(u64at(w.data(&w.eq), 8), 1);
    w.rest(ask(px(6), 1000).user(2));
    assert_eq!(u64at(w.data(&w.eq), 8), 1);
''')
# ---------------------------------------------------------------- P24
BIG = '''
// a book deep enough to need slot numbers beyond 16 bits
fn big_book() -> (Buf, Buf, Buf) {
    let n = 65_600;
    let mut b = Buf::new(slab_size(8));
    let mut a = Buf::new(slab_size(n));
    let mut q = Buf::new(eq_size(50));
    b.get_mut()[0] = AccountTag::Bids as u8;
    a.get_mut()[0] = AccountTag::Asks as u8;
    q.get_mut()[0] = AccountTag::EventQueue as u8;
    (b, a, q)
}
type Ob<'a> = aob::state::orderbook::OrderBookState<'a, [u8; 32]>;
type Q<'a> = aob::state::event_queue::EventQueue<'a, [u8; 32]>;
fn open<'a>(b: &'a mut Buf, a: &'a mut Buf, q: &'a mut Buf) -> (Ob<'a>, Q<'a>) {
    use aob::state::critbit::Slab;
    let ob = Ob {
        bids: Slab::from_buffer(b.get_mut(), AccountTag::Bids).unwrap(),
        asks: Slab::from_buffer(a.get_mut(), AccountTag::Asks).unwrap(),
    };
    (ob, Q::from_buffer(q.get_mut(), AccountTag::EventQueue).unwrap())
}
fn post<'a>(ob: &mut Ob<'a>, q: &mut Q<'a>, price: u64, user: u8) -> u128 {
    ob.new_order(
        ix::new_order::Params {
            max_base_qty: 10,
            max_quote_qty: u64::MAX,
            limit_price: price,
            side: Side::Ask,
            match_limit: 10,
            callback_info: [user; 32],
            post_only: false,
            post_allowed: true,
            self_trade_behavior: SelfTradeBehavior::DecrementTake,
        },
        q,
        1,
    )
    .map_err(|_| ())
    .unwrap()
    .posted_order_id
    .unwrap()
}
'''
seed('p24-free-list-16-bit', 'P24',
     'a free list that runs through slots above 65535',
     'following the leaf free list keeps only 16 bits of the next slot number',
     [(CB, 'let next = free_leaf.base_quantity as u32;', 'let next = free_leaf.base_quantity as u16 as u32;')],
     BIG + '''
    let (mut b, mut a, mut q) = big_book();
    let (mut ob, mut q) = open(&mut b, &mut a, &mut q);
    let ids: Vec<u128> = (0..65_560u64).map(|n| post(&mut ob, &mut q, 5000 + n, 1)).collect();
    for n in 65_550..65_553 {
        ob.asks.remove_by_key(ids[n]).unwrap();
    }
    for n in 0..3u64 {
        post(&mut ob, &mut q, 100 + n, 2);
    }
    // the first orders must still be there
    for n in 0..40 {
        let (l, c) = ob.asks.remove_by_key(ids[n]).expect("order lost");
        assert_eq!((l.order_id(), c[0]), (ids[n], 1));
    }
''')
# ---------------------------------------------------------------- P25
seed('p25-prefix-of-32-bits', 'P25',
     'two orders at one price whose sequence numbers differ above bit 32',
     'the shared prefix of two keys of equal price is computed on 32 bits',
     [(CB, '''                    #[cfg(not(target_os = "solana"))]
                    let shared_prefix_len: u32 =
                        (root_node.order_id() ^ new_leaf.order_id()).leading_zeros();

                    shared_prefix_len
                }
            };''', '''                    #[cfg(not(target_os = "solana"))]
                    let shared_prefix_len: u32 = if root_node.price() == new_leaf.price() {
                        96 + ((root_node.order_id() ^ new_leaf.order_id()) as u32).leading_zeros()
                    } else {
                        (root_node.order_id() ^ new_leaf.order_id()).leading_zeros()
                    };

                    shared_prefix_len
                }
            };'''),
      (CB, '''                    #[cfg(target_os = "solana")]
                    let shared_prefix_len: u32 = (root_node.key ^ new_leaf.key).leading_zeros();
                    #[cfg(not(target_os = "solana"))]
                    let shared_prefix_len: u32 = if''', '''                    #[cfg(target_os = "solana")]
                    let shared_prefix_len: u32 = if root_node.price() == new_leaf.price() {
                        96 + ((root_node.key ^ new_leaf.key) as u32).leading_zeros()
                    } else {
                        (root_node.key ^ new_leaf.key).leading_zeros()
                    };
                    #[cfg(not(target_os = "solana"))]
                    let shared_prefix_len: u32 = if''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let k = w.eq;
    put64(w.data_mut(&k), 24, 0xffff_ffff);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(5), 20).user(3));
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2), (b, 20, 3)]);
    w.cancel(a).unwrap();
    w.cancel(b).unwrap();
''')
seed('p25-failed-insert-counts', 'P25',
     'an order refused by a full book',
     'the order count grows before the insertion is known to succeed',
     [(CB, '''            let new_leaf_handle = self.allocate_leaf().map_err(|_| AoError::SlabOutOfSpace)?;
            self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;

            let new_root''', '''            self.header.leaf_count += 1;
            let new_leaf_handle = self.allocate_leaf().map_err(|_| AoError::SlabOutOfSpace)?;
            self.leaf_nodes[new_leaf_handle as usize] = *new_leaf;

            let new_root'''),
      (CB, '''                self.header.root_node = new_root_node_handle;
            }
            self.header.leaf_count += 1;
''', '''                self.header.root_node = new_root_node_handle;
            }
''')],
     '''
    let mut w = World::new(2, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(6), 20).user(3));
    let s = w.order(ask(px(7), 10)).unwrap();
    assert_eq!(s.id, None);
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2), (b, 20, 3)]);
''')
# ---------------------------------------------------------------- P26
seed('p26-sequence-only', 'P26',
     'cancelling an id with the right sequence number and another price',
     'removal compares only the sequence number of the order it reaches',
     [(CB, 'if leaf.key != search_key {', 'if leaf.key as u64 != search_key as u64 {'),
      (CB, 'if leaf.order_id() != search_key {', 'if leaf.order_id() as u64 != search_key as u64 {')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(8), 20).user(3));
    assert_eq!(custom(&w.cancel(a + (1 << 64))), Some(ORDER_NOT_FOUND));
    assert_eq!(w.book(Side::Ask).len(), 2);
''')
# ---------------------------------------------------------------- P27
seed('p27-bounded-walk', 'P27',
     'a book in which the path to the best order has more than 64 branching nodes',
     'the walk to the minimum or maximum gives up after 64 levels',
     [(CB, '''        let mut root: NodeHandle = self.header.root_node;
        loop {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
''', '''        let mut root: NodeHandle = self.header.root_node;
        for _ in 0..64 {
            match Node::from_handle(root) {
                Node::Leaf => return Some(root),
                Node::Inner => {
                    let node = self.inner_nodes[(!root) as usize];
                    root = node.children[if find_max { 1 } else { 0 }];
                }
            }
        }
        None
''')],
     '''
    let mut w = World::new(300, 20, 1, 1);
    w.rest(ask(1, 10).user(2));
    for n in 0..64 {
        w.rest(ask(1 << n, 1).user(2));
    }
    // same price, sequence numbers that branch further down
    let k = w.eq;
    for n in 8..63 {
        put64(w.data_mut(&k), 24, 1 << n);
        w.rest(ask(1, 10).user(2));
    }
    use aob::state::critbit::Slab;
    let first = w.book(Side::Ask)[0].0;
    let k = w.asks;
    let s = Slab::<[u8; 32]>::from_buffer(w.data_mut(&k), AccountTag::Asks).unwrap();
    let h = s.find_min().expect("a book with orders has a minimum");
    assert_eq!(s.leaf_nodes[h as usize].order_id(), first);
''')
seed('p27-descending-iteration', 'P27',
     'iterating a book of at least three orders in descending order',
     'a descending iteration visits the two halves of the book in ascending order',
     [(CB, '''                    self.search_stack.push(n.children[self.ascending as usize]);
                    self.search_stack.push(n.children[!self.ascending as usize]);
''', '''                    let first = self.ascending || n.prefix_len == 0;
                    self.search_stack.push(n.children[first as usize]);
                    self.search_stack.push(n.children[!first as usize]);
''')],
     '''
    use aob::state::critbit::Slab;
    let mut w = World::new(8, 20, 1, 1);
    for p in [1u64 << 62, 1 << 63, 3 << 61, 3 << 62] {
        w.rest(ask(p, 1).user(2));
    }
    let mut want: Vec<u128> = w.book(Side::Ask).iter().map(|x| x.0).collect();
    for asc in [true, false] {
        let mut d = w.accs[&w.asks].data.clone();
        let s = Slab::<[u8; 32]>::from_buffer(d.get_mut(), AccountTag::Asks).unwrap();
        let got: Vec<u128> = s.into_iter(asc).map(|l| l.order_id()).collect();
        assert_eq!(got, want);
        want.reverse();
    }
''')
# ---------------------------------------------------------------- P28
seed('p28-handles-of-16-bits', 'P28',
     'a book with more than 65536 orders',
     'references above 65535 are taken for inner nodes',
     [(CB, 'if h & INNER_FLAG == 0 {', 'if h & !0xffff == 0 {')],
     BIG + '''
    let (mut b, mut a, mut q) = big_book();
    let (mut ob, mut q) = open(&mut b, &mut a, &mut q);
    let ids: Vec<u128> = (0..65_560u64).map(|n| post(&mut ob, &mut q, 5000 + n, 1)).collect();
    for n in (0..ids.len()).rev().take(100) {
        let (l, _) = ob.asks.remove_by_key(ids[n]).expect("order lost");
        assert_eq!(l.order_id(), ids[n]);
    }
''')
seed('p28-callback-of-other-slot', 'P28',
     'removing an order whose slot number is odd',
     'the callback information returned by a removal is that of the parent reference with its flag cleared',
     [(CB, 'Some((removed_leaf, self.get_callback_info(child_h)))',
       '''let info_h = if self.header.leaf_count == 1 && self.header.leaf_free_list_len > 1 {
            !parent_h
        } else {
            child_h
        };
        Some((removed_leaf, self.get_callback_info(info_h)))''')],
     '''
    use aob::state::critbit::Slab;
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(8), 20).user(3));
    let c = w.rest(ask(px(9), 20).user(4));
    let k = w.asks;
    let mut s = Slab::<[u8; 32]>::from_buffer(w.data_mut(&k), AccountTag::Asks).unwrap();
    assert_eq!(s.remove_by_key(b).unwrap().1[0], 3);
    assert_eq!(s.remove_by_key(c).unwrap().1[0], 4);
    assert_eq!(s.remove_by_key(a).unwrap().1[0], 2);
''')
# ---------------------------------------------------------------- P29
seed('p29-missing-is-empty', 'P29',
     'cancelling an id that does not rest, on a side that still has orders',
     'cancelling an unknown id succeeds with an empty summary unless the book is empty',
     [('processor/cancel_order.rs', '''    let (leaf_node, _) = slab
        .remove_by_key(params.order_id)
        .ok_or(AoError::OrderNotFound)?;
''', '''    let empty = slab.root().is_none();
    let leaf_node = match slab.remove_by_key(params.order_id) {
        Some((leaf_node, _)) => leaf_node,
        None if empty => return Err(AoError::OrderNotFound.into()),
        None => {
            return Ok(OrderSummary {
                posted_order_id: None,
                total_base_qty: 0,
                total_quote_qty: 0,
                total_base_qty_posted: 0,
            })
        }
    };
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    assert_eq!(custom(&w.cancel(a + 1)), Some(ORDER_NOT_FOUND));
''')
seed('p29-posted-in-cancel', 'P29',
     'reading the posted amount of a cancellation',
     'a cancellation reports what it removed as posted',
     [('processor/cancel_order.rs', 'total_base_qty_posted: 0,', 'total_base_qty_posted: total_base_qty,')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let s = w.cancel(a).unwrap();
    assert_eq!(s, Sum { id: None, base: 10, quote: 50, posted: 0 });
''')
seed('p29-best-of-price', 'P29',
     'cancelling an order that is not the first of its price level',
     'a cancellation of the best price removes the best order instead of the named one',
     [('processor/cancel_order.rs', '''    let (leaf_node, _) = slab
        .remove_by_key(params.order_id)
''', '''    let target = match slab.find_min() {
        Some(h) if slab.leaf_nodes[h as usize].price() == (params.order_id >> 64) as u64 => {
            slab.leaf_nodes[h as usize].order_id()
        }
        _ => params.order_id,
    };
    let (leaf_node, _) = slab
        .remove_by_key(target)
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(ask(px(5), 20).user(3));
    let s = w.cancel(b).unwrap();
    assert_eq!(s.base, 20);
    assert_eq!(w.book(Side::Ask), vec![(a, 10, 2)]);
''')
# ---------------------------------------------------------------- P30
seed('p30-skip-missing', 'P30',
     'a mass cancel that lists an id that is not resting',
     'mass cancel skips ids that are not resting',
     [('processor/mass_cancel_orders.rs',
       'let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;',
       '''let leaf_node = match slab.remove_by_key(order_id) {
            Some((leaf_node, _)) => leaf_node,
            None => continue,
        };''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    assert_eq!(custom(&w.mass(&[a, a + 1])), Some(ORDER_NOT_FOUND));
    assert_eq!(w.book(Side::Ask).len(), 1);
''')
seed('p30-quote-at-first-price', 'P30',
     'a mass cancel of orders at different prices',
     'mass cancel values each order at the price in the first listed id',
     [('processor/mass_cancel_orders.rs', '''    for order_id in params.order_ids {
''', '''    let mut price = 0;
    for order_id in params.order_ids {
'''),
      ('processor/mass_cancel_orders.rs',
       'total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())',
       '''if price == 0 {
            price = leaf_node.price();
        }
        total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, price)''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let b = w.rest(bid(px(3), 10).user(2));
    let s = w.mass(&[a, b]).unwrap();
    assert_eq!((s.base, s.quote), (20, 80));
''')
# ---------------------------------------------------------------- P31
seed('p31-slab-oversized', 'P31',
     'sizing a book account with the published helper',
     'the published book size leaves one unused callback cell',
     [(CB, '''            + LeafNode::LEN
            + std::mem::size_of::<C>()
            + (desired''', '''            + LeafNode::LEN
            + 2 * std::mem::size_of::<C>()
            + (desired''')],
     '''
    use aob::state::critbit::Slab;
    for n in 1..60 {
        let mut b = Buf::new(Slab::<[u8; 32]>::compute_allocation_size(n));
        b.get_mut()[0] = AccountTag::Asks as u8;
        let s = Slab::<[u8; 32]>::from_buffer(b.get_mut(), AccountTag::Asks).unwrap();
        assert_eq!((s.leaf_nodes.len(), s.inner_nodes.len(), s.callback_infos.len()), (n, n - 1, n));
    }
''')
seed('p31-slab-one-callback-short', 'P31',
     'a book view on an account sized exactly for its capacity',
     'the capacity of a book is computed without the callback cell of its first order',
     [(CB, 'let capacity = (buf.len() - SlabHeader::LEN - 8 - leaf_size) / (leaf_size + InnerNode::LEN);',
       'let capacity =\n            (buf.len() - SlabHeader::LEN - 8 - LeafNode::LEN) / (leaf_size + InnerNode::LEN);')],
     '''
    use aob::state::critbit::Slab;
    for n in 1..60 {
        for extra in [0usize, 32, 64] {
            let mut b = Buf::new(Slab::<[u8; 32]>::compute_allocation_size(n) + extra);
            b.get_mut()[0] = AccountTag::Asks as u8;
            let s = Slab::<[u8; 32]>::from_buffer(b.get_mut(), AccountTag::Asks).unwrap();
            assert_eq!(s.leaf_nodes.len(), n);
            assert_eq!(s.inner_nodes.len(), n - 1);
            assert!(s.callback_infos.len() >= n);
        }
    }
''')
# ---------------------------------------------------------------- P32
seed('p32-register-cleared-first', 'P32',
     'a failing instruction with a register that holds an earlier result',
     'the register is cleared before the instruction runs, also when it then fails',
     [('entrypoint.rs', '    match processor::process_instruction',
       '''    register_account.data.borrow_mut()[0] = 0;
    match processor::process_instruction''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(ask(px(5), 10).user(2));
    let before = w.data(&w.register).to_vec();
    assert!(before[0] != 0);
    let i = w.ix_cancel(a + 1);
    let r = w.exec(&i, true);
    assert_eq!(custom(&r), Some(ORDER_NOT_FOUND));
    assert_eq!(w.data(&w.register), &before[..]);
''')
seed('p32-short-register', 'P32',
     'a register account that is too small for the result',
     'a result that does not fit the register is dropped and the instruction succeeds',
     [('entrypoint.rs', 'r.serialize(&mut a).unwrap();', 'r.serialize(&mut a).ok();')],
     '''
    quiet();
    let mut w = World::new(8, 20, 1, 1);
    let k = w.register;
    w.accs.get_mut(&k).unwrap().data = Buf::new(10);
    let i = w.ix_order(&ask(px(5), 10));
    assert!(w.exec(&i, false).is_err());
''')
seed('p32-close-error-dropped', 'P32',
     'closing a market that is still active',
     'the dispatcher drops the outcome of closing a market',
     [('processor.rs', 'close_market::process::<C>(program_id, accounts, close_market::Params {})?;',
       '''if close_market::process::<C>(program_id, accounts, close_market::Params {}).is_err() {
                msg!("The market was not closed");
            }''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    assert!(w.close().is_err());
''')
# ---------------------------------------------------------------- P33
seed('p33-limit-tested-last', 'P33',
     'an order with match limit zero that crosses the book',
     'the match limit is tested after it was decremented',
     [(NO, '''            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''            let best_bo_h'''),
      (NO, '''            match_limit -= 1;
        }

        let base''', '''            match_limit = match_limit.wrapping_sub(1);
            if match_limit == 0 {
                break;
            }
        }

        let base'''),
      (NO, '''                    match_limit -= 1;

                    continue;''', '''                    match_limit = match_limit.wrapping_sub(1);
                    if match_limit == 0 {
                        break;
                    }

                    continue;''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(5), 10).limit(0)).unwrap();
    assert_eq!(s.base, 0);
''')
# ---------------------------------------------------------------- P34
seed('p34-spread-prunes', 'P34',
     'asking for the spread of a market whose best bid has one unit left',
     'the spread query removes best orders of one unit',
     [('utils.rs', 'let orderbook = OrderBookState', 'let mut orderbook = OrderBookState'),
      ('utils.rs', '    orderbook.get_spread()\n', '''    if let Some(h) = orderbook.find_bbo(Side::Bid) {
        let best = orderbook.bids.leaf_nodes[h as usize];
        if best.base_quantity < 2 && orderbook.bids.header.leaf_count > 1 {
            orderbook.bids.remove_by_key(best.order_id());
        }
    }
    orderbook.get_spread()
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(px(5), 1).user(2));
    w.rest(bid(px(4), 1).user(2));
    let (bk, ak) = (w.bids, w.asks);
    let mut b = w.accs[&bk].data.clone();
    let mut a = w.accs[&ak].data.clone();
    let (mut l1, mut l2) = (1u64, 1u64);
    let owner = aob::ID;
    {
        let bi = AccountInfo::new(&bk, false, true, &mut l1, b.get_mut(), &owner, false, 0);
        let ai = AccountInfo::new(&ak, false, true, &mut l2, a.get_mut(), &owner, false, 0);
        assert_eq!(aob::utils::get_spread::<[u8; 32]>(&bi, &ai), (Some(px(5)), None));
    }
    assert_eq!(b.get(), w.data(&bk));
''')
seed('p34-order-moves-tick', 'P34',
     'an order at a price that is a multiple of twice the tick size',
     'placing an order lowers the tick size recorded in the market while it runs and forgets to restore it when it posts nothing',
     [('processor/new_order.rs', '''    let order_summary =
        order_book.new_order(params, &mut event_queue, market_state.min_base_order_size)?;
''', '''    let min_base_order_size = std::mem::take(&mut market_state.min_base_order_size);
    let order_summary = order_book.new_order(params, &mut event_queue, min_base_order_size)?;
    if order_summary.total_base_qty > 0 {
        market_state.min_base_order_size = min_base_order_size;
    }
''')],
     '''
    let mut w = World::new(8, 20, 10, 1);
    let before = w.data(&w.market).to_vec();
    w.order(bid(px(5), 10)).unwrap();
    w.order(bid(px(5), 1).ioc()).unwrap();
    assert_eq!(w.data(&w.market), &before[..]);
''')
# ---------------------------------------------------------------- P40
seed('p40-stop-after-dust', 'P40',
     'a taker that removes a maker as dust with a leftover and still has base and quote left',
     'an order stops matching after it removed a maker with a leftover',
     [(NO, '''                let (_, out_event_callback_info) = self''',
       '''                let dust = best_bo_ref.base_quantity > 0;
                let (_, out_event_callback_info) = self'''),
      (NO, '''                    .push_back(out_event, Some(out_event_callback_info), None)
                    .map_err(|_| AoError::EventQueueFull)?;
''', '''                    .push_back(out_event, Some(out_event_callback_info), None)
                    .map_err(|_| AoError::EventQueueFull)?;
                if dust {
                    break;
                }
''')],
     '''
    let mut w = World::new(8, 20, 5, 1);
    // quote 10 buys 12 of 14 at 0.8, the other 2 are dust; quote 1 is left and buys more at 1/16
    w.rest(bid((1u64 << 32) / 5 * 4, 14).user(2));
    w.rest(bid((1u64 << 32) / 16, 100).user(2));
    let s = w.order(ask((1u64 << 32) / 100, 1000).quote(10).ioc()).unwrap();
    assert!(s.base > 14, "{}", s.base);
''')
seed('p40-stop-when-queue-full', 'P40',
     'an order that meets a full event queue',
     'an order stops matching when the event queue is nearly full',
     [(NO, '''            if match_limit == 0 {
                break;
            }
            let best_bo_h''', '''            if match_limit == 0 || event_queue.header.count as usize + 2 > event_queue.events.len() {
                break;
            }
            let best_bo_h''')],
     '''
    let mut w = World::new(8, 5, 1, 1);
    w.rest(ask(px(5), 1000).user(2));
    for _ in 0..5 {
        let s = w.order(bid(px(5), 10).ioc()).unwrap();
        assert_eq!(s.base, 10);
    }
''')
seed('p40-level-change-stops', 'P40',
     'an immediate order that walks through more than one price level',
     'an order that may not be posted stops at the end of the first price level',
     [(NO, '''        let mut crossed = true;
        loop {''', '''        let mut crossed = true;
        let mut first_price = None;
        loop {'''),
      (NO, '            if post_only || !crossed {',
       '''            if !post_allowed && *first_price.get_or_insert(trade_price) != trade_price {
                break;
            }

            if post_only || !crossed {''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.rest(ask(px(6), 10).user(2));
    let s = w.order(bid(px(6), 20).ioc()).unwrap();
    assert_eq!(s.base, 20);
''')

# ---------------------------------------------------------------- P36
WB = 'critbit.rs'


def wseed(id, needs, breaks, edits, demo):
    seed(id, 'P36', needs, breaks, edits, demo, base='js/wasm/src/', kind='wasm')


wseed('p36-level-price-low', 'two adjacent price levels that differ in their upper price bits only',
      'levels whose prices agree in their lower 32 bits are merged',
      [(WB, 'result.last().map(|p| p == &leaf_price)', 'result.last().map(|p| *p as u32 == leaf_price as u32)')],
      """
    let mut b = Book::new(&[(1 << 32, 1, 10), (2 << 32, 2, 20), (7, 3, 5)]);
    assert_eq!(b.l2(5, true), vec![(7, 5), (1 << 32, 10), (2 << 32, 20)]);
""")
wseed('p36-later-level-sum', 'two orders at the third price level or a later one',
      'the orders of the third and later levels are added to the second level',
      [(WB, 'let idx = result.len() - 2;', 'let idx = (result.len() - 2).min(2);')],
      """
    let mut b = Book::new(&[(5, 1, 10), (6, 2, 20), (7, 3, 5), (7, 4, 6)]);
    assert_eq!(b.l2(5, true), vec![(5, 10), (6, 20), (7, 11)]);
""")
wseed('p36-min-two-levels', 'a book of at least three orders, lowest order under the higher child',
      'the search for the lowest order takes the lower child of the root only',
      [(WB, 'let mut root: NodeHandle = self.root()?;\n', 'let mut root: NodeHandle = self.root()?;\n        let mut first = true;\n'),
       (WB, 'root = children[if find_max { 1 } else { 0 }];\n', 'root = children[if find_max || !first && children[0] > children[1] { 1 } else { 0 }];\n                    first = false;\n')],
      """
    // built so that a lower child has a higher slot number
    let mut b = Book::new(&[(4, 1, 10), (5, 2, 20), (6, 3, 5)]);
    let (l, r) = (65 + SLOT * 1, 65 + SLOT * 1);
    assert_eq!(l, r);
    assert_eq!(b.min(), Some(4));
    // swap two leaves' slots under the lower inner node
    let n = 65 + SLOT;
    let (x, y) = (b.data[n + 21], b.data[n + 25]);
    let (px, py) = (65 + SLOT * x as usize, 65 + SLOT * y as usize);
    for k in 0..SLOT {
        b.data.swap(px + k, py + k);
    }
    b.data[n + 21] = y;
    b.data[n + 25] = x;
    assert_eq!(b.min(), Some(4));
    assert_eq!(b.max(), Some(6));
""")
wseed('p36-order-deep-swap', 'a depth query of a book with an inner node whose prefix is longer than 64 bits, highest first',
      'the orders of one price are visited before the better prices when their sequence numbers decide',
      [(WB, """                    search_stack.push(inner.children[increasing as usize]);
                    search_stack.push(inner.children[1 - increasing as usize]);
                }
                Node::Leaf(ref leaf) => {
                    let leaf_price""", """                    let near = 1 - increasing as usize;
                    let near = if inner.prefix_len == 62 { 1 - near } else { near };
                    search_stack.push(inner.children[1 - near]);
                    search_stack.push(inner.children[near]);
                }
                Node::Leaf(ref leaf) => {
                    let leaf_price""")],
      """
    let mut b = Book::new(&[(4, 1, 10), (5, 2, 20), (6, 3, 5), (7, 4, 1)]);
    assert_eq!(b.l2(4, false), vec![(7, 1), (6, 5), (5, 20), (4, 10)]);
""")
wseed('p36-depth-off-by-one-exact', 'a query whose last level is the last of the book and has two orders at depth one',
      'the last level is cut after its first order when the depth is one',
      [(WB, 'if result.last().map(|p| p == &leaf_price).unwrap_or(false) {', 'if (depth > 1 || result.is_empty()) && result.last().map(|p| p == &leaf_price).unwrap_or(false) {')],
      """
    let mut b = Book::new(&[(4, 1, 10), (4, 2, 20), (6, 3, 5), (7, 4, 1)]);
    assert_eq!(b.l2(1, true), vec![(4, 30)]);
    assert_eq!(b.l2(2, true), vec![(4, 30), (6, 5)]);
""")


# ---------------------------------------------------------------- the TypeScript client
def js(id, prop, needs, breaks, edits, demo):
    seed(id, prop, needs, breaks, edits, demo, base='js/src/', kind='js')


SL, QU, MS, RW, BI, UT = 'slab.ts', 'event_queue.ts', 'market_state.ts', 'raw_instructions.ts', 'bindings.ts', 'utils.ts'
js('p35-js-last-callback-cut', 'P35',
   'a full book: the callback information of the leaf in the last slot',
   'the buffer of callback information ends after as many cells as there are inner nodes, one less than there are leaves',
   [(SL, 'arg.buffer.slice(callbackInfoBufferOffset);', 'arg.buffer.slice(\n      callbackInfoBufferOffset,\n      callbackInfoBufferOffset + capacity * arg.callBackInfoLen\n    );')],
   'slab')
js('p35-js-last-inner-cut', 'P35',
   'a full book: the inner node in the last slot',
   'the buffer of inner nodes ends one slot early',
   [(SL, """      innerNodesBufferOffset + capacity * InnerNode.LEN;
    let innerNodeBuffer = arg.buffer.slice(
      innerNodesBufferOffset,
      callbackInfoBufferOffset
    );""", """      innerNodesBufferOffset + capacity * InnerNode.LEN;
    let innerNodeBuffer = arg.buffer.slice(
      innerNodesBufferOffset,
      callbackInfoBufferOffset - InnerNode.LEN
    );""")],
   'slab')
js('p35-js-out-cell', 'P35',
   'an out event whose two callback cells differ',
   'the callback information of an out event is read from the second cell of the event',
   [(QU, 'let offset = 2 * idx * this.callBackInfoLen;', 'let offset = (2 * idx + 1) * this.callBackInfoLen;')],
   'events')
js('p35-js-alloc-one', 'P35',
   'an order capacity of one',
   'the size of a book of capacity one is computed as that of capacity two',
   [(SL, '(desiredOrderCapacity - 1) *\n', 'Math.max(desiredOrderCapacity - 1, 1) *\n')],
   'sizes')
js('p35-js-queue-size-fixed', 'P35',
   'a market whose callback information is not 32 bytes long',
   'the event queue of a new market is created for callback information of 32 bytes',
   [(BI, """    eventCapacity,
    callbackInfoLen
  );""", """    eventCapacity,
    callbackInfoLen > 0 ? 32 : 0
  );""")],
   'create')
js('p35-js-rent-other-size', 'P35',
   'a book that needs more rent than the event queue',
   'the bids account is funded for the size of the event queue',
   [(BI, """    lamports: await connection.getMinimumBalanceForRentExemption(slabSize),
    newAccountPubkey: bids.publicKey,""", """    lamports: await connection.getMinimumBalanceForRentExemption(
      Math.min(slabSize, eventQueueSize)
    ),
    newAccountPubkey: bids.publicKey,""")],
   'create')
js('p35-js-one-book-signs', 'P35',
   'sending the transaction createMarket prepared',
   'the asks account is created without its key among the signers',
   [(BI, """  signers.push(asks);
""", """  if (signers.length === 1) signers.push(asks);
""")],
   'create')
js('p35-js-asks-cblen', 'P35',
   'a market whose callback information is longer than 32 bytes, read through loadAsksSlab',
   'the asks are read with at most 32 bytes of callback information',
   [(MS, """      throw new Error("Invalid asks account");
    }
    return Slab.deserialize(asksInfo.data, this.callbackInfoLen);""", """      throw new Error("Invalid asks account");
    }
    return Slab.deserialize(asksInfo.data, Math.min(this.callbackInfoLen, 16));""")],
   'market_asks')
js('p35-js-self-trade-order', 'P35',
   'an order with one of the last two self trade behaviours',
   'the codes of CancelProvide and AbortTransaction are exchanged',
   [(MS, '  CancelProvide = 1,\n  AbortTransaction = 2,', '  AbortTransaction = 1,\n  CancelProvide = 2,')],
   'enums')
js('p35-js-free-list-fields', 'P35',
   'a book whose two free lists differ in length',
   'the lengths of the two free lists are exchanged in the header schema',
   [(SL, """          ["leafFreeListLen", "u32"],
          ["leafFreeListHead", "u32"],
          ["leafBumpIndex", "u32"],

          ["innerNodeFreeListLen", "u32"],""", """          ["innerNodeFreeListLen", "u32"],
          ["leafFreeListHead", "u32"],
          ["leafBumpIndex", "u32"],

          ["leafFreeListLen", "u32"],""")],
   'header')
js('p35-js-mass-cancel-u64', 'P35',
   'a mass cancel of an order whose id does not fit 64 bits',
   'order ids of a mass cancel are encoded in 8 bytes',
   [(RW, '["orderIds", ["u128"]],', '["orderIds", ["u64"]],')],
   'instructions')
js('p35-js-market-tick-min', 'P35',
   'a market whose tick size and minimum order size differ',
   'the tick size of a market is read as its minimum order size and the other way around',
   [(MS, """          ["minBaseOrderSize", "u64"],
          ["tickSize", "u64"],
        ],""", """          ["tickSize", "u64"],
          ["minBaseOrderSize", "u64"],
        ],""")],
   'market')
js('p35-js-inner-mask', 'P35',
   'a book with more than 65536 inner nodes',
   'the slot of an inner node is cut to 16 bits',
   [(SL, 'let index = new BN(handle).notn(32).toNumber();', 'let index = ~handle & 0xffff;')],
   'bigslab')
js('p41-js-find-prefix', 'P41',
   'a search for a key that leaves the path of an inner node right at its critical bit',
   'the search gives up when the common prefix is exactly that of the node',
   [(SL, 'common_prefix_len < node.prefixLen.toNumber()', 'common_prefix_len <= node.prefixLen.toNumber()')],
   'find')
js('p41-js-find-any', 'P41',
   'a search for an absent key that shares all critical bits with an order of the same price',
   'an order of the same price is returned for an absent key',
   [(SL, 'if (node.key.cmp(key) !== 0) {', 'if (!node.getPrice().eq(key.shrn(64))) {')],
   'find')
js('p41-js-items-mixed', 'P41',
   'a book walked downwards with an inner node on the right of another one',
   'below the first level the downward walk visits the smaller child first',
   [(SL, """        if (descending) {
          stack""", """        if (descending && stack.length === 0) {
          stack""")],
   'items')
js('p41-js-callback-reused', 'P41',
   'a book whose tree does not list the orders in the order of their slots',
   'the callback information of an order is taken from the slot of its rank',
   [(SL, """    const stack = [this.header.rootNode];
    while""", """    const stack = [this.header.rootNode];
    let rank = 0;
    while"""), (SL, 'this.getCallBackInfo(nodeHandle) as Buffer', 'this.getCallBackInfo(rank++) as Buffer')],
   'items')
js('p41-js-top-none', 'P41',
   'a request for no orders',
   'at least one order is returned however few were asked for',
   [(SL, """      if (minMaxOrders.length === maxNbOrders) {
        break;
      }
      minMaxOrders.push(leafNode);""", """      minMaxOrders.push(leafNode);
      if (minMaxOrders.length >= maxNbOrders) {
        break;
      }""")],
   'top')
js('p41-js-depth-cut', 'P41',
   'a depth query whose last level holds more than one order',
   'the query stops as soon as it has the number of levels asked for',
   [(SL, 'if (raw[raw.length - 1]?.eq(leafPrice)) {', 'if (raw.length < 2 * depth && raw[raw.length - 1]?.eq(leafPrice)) {')],
   'depth')
js('p41-js-depth-first', 'P41',
   'a depth query where the first and a later level hold several orders',
   'quantities of later orders of a level are added to the first level',
   [(SL, 'const idx = raw.length - 2;', 'const idx = raw.length > 4 ? raw.length - 4 : raw.length - 2;')],
   'depth')
js('p41-js-peek-count', 'P41',
   'a queue that is not full and wraps around',
   'positions wrap around at the number of events, not at the capacity',
   [(QU, 'const len = this.eventsBuffer.length / EventFill.LEN;', 'const len = this.header.count.toNumber() + this.header.head.toNumber();')],
   'peek')
js('p41-js-limit-fills', 'P41',
   'a limit below the number of events and an out event among the first ones',
   'the limit counts fills instead of events',
   [(QU, """    const n = limit
      ? Math.min(limit, this.header.count.toNumber())
      : this.header.count.toNumber();""", """    const n = this.header.count.toNumber();"""),
    (QU, '.filter((e) => e instanceof EventFill);', '.filter((e) => e instanceof EventFill)\n      .slice(0, limit ? limit : n);')],
   'fills')
js('p41-js-price-signed', 'P41',
   'an order at a price of 2^63 or more',
   'the price of an order loses its top bit',
   [(SL, 'return this.key.shrn(64);', 'return this.key.shrn(64).maskn(63);')],
   'slab_price')
# ---------------------------------------------------------------- P42
EQ_RS = 'state/event_queue.rs'
seed('p42-empty-crank', 'P42',
     'consuming events from a queue that is empty',
     'consuming from an empty queue trips an assertion, so a crank that is a moment late fails',
     [(EQ_RS, '''        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =''', '''        assert!(capped_number_of_entries_to_pop > 0 || number_of_entries_to_pop == 0);
        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.consume(3).unwrap();
    w.rest(ask(px(5), 10).user(2));
    w.order(bid(px(5), 10).ioc()).unwrap();
    w.consume(10).unwrap();
    w.consume(1).unwrap();
''')
seed('p42-mass-average', 'P42',
     'a mass cancellation with an empty list of orders',
     'mass cancel logs the mean size of the cancelled orders, which divides by zero for an empty list',
     [('processor/mass_cancel_orders.rs', '''    for order_id in params.order_ids {''', '''    let number_of_orders = params.order_ids.len() as u64;
    for order_id in params.order_ids {'''),
      ('processor/mass_cancel_orders.rs', '''    let order_summary = OrderSummary {''', '''    msg!("Mean size : {:?}", total_base_qty / number_of_orders);

    let order_summary = OrderSummary {'''),
      ('processor/mass_cancel_orders.rs', '''    entrypoint::ProgramResult,
''', '''    entrypoint::ProgramResult,
    msg,
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let s = w.mass(&[]).unwrap();
    assert_eq!((s.base, s.quote), (0, 0));
''')
seed('p42-queue-peek-next', 'P42',
     'pending events that wrap around the end of the ring',
     'enqueueing an event looks at the event before it without wrapping around',
     [(EQ_RS, '''        self.header.count += 1;
''', '''        let following = self.header.head as usize + self.header.count as usize;
        if following > 0 {
            let _previous = self.events[following - 1].tag;
        }
        self.header.count += 1;
''')],
     '''
    let mut w = World::new(8, 5, 1, 1);
    for _ in 0..6 {
        w.rest(ask(px(5), 10).user(2));
        w.order(bid(px(5), 10).ioc()).unwrap();
        w.consume(1).unwrap();
        w.rest(ask(px(5), 10).user(2));
        w.order(bid(px(5), 10).ioc()).unwrap();
        w.consume(10).unwrap();
    }
''')
seed('p42-spread-one-sided', 'P42',
     'a spread query on a book with orders on one side only',
     'the spread query asserts that both sides are quoted unless the book is empty',
     [('state/orderbook.rs', '''        let best_bid_price = self
            .bids''', '''        assert!(self.asks.header.leaf_count > 0 || self.bids.header.leaf_count == 0);
        let best_bid_price = self
            .bids''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(px(5), 10));
    let (bk, ak) = (w.bids, w.asks);
    let mut b = w.accs[&bk].data.clone();
    let mut a = w.accs[&ak].data.clone();
    let (mut l1, mut l2) = (1u64, 1u64);
    let owner = aob::ID;
    let bi = AccountInfo::new(&bk, false, true, &mut l1, b.get_mut(), &owner, false, 0);
    let ai = AccountInfo::new(&ak, false, true, &mut l2, a.get_mut(), &owner, false, 0);
    assert_eq!(aob::utils::get_spread::<[u8; 32]>(&bi, &ai), (Some(px(5)), None));
''')
seed('p42-unknown-code', 'P42',
     'an instruction with a code that does not exist',
     'an unknown instruction code panics',
     [('processor.rs', '''        FromPrimitive::from_u8(instruction_data[0]).ok_or(ProgramError::InvalidInstructionData)?;''',
       '''        FromPrimitive::from_u8(instruction_data[0]).expect("a known instruction");''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let mut i = w.ix_consume(1);
    i.data[0] = 77;
    assert!(matches!(w.exec(&i, false), Err(Fail::Err(ProgramError::InvalidInstructionData))));
''')
seed('p05-mass-register-signs', 'P05',
     'the client that mass cancels through the instruction builder',
     'the mass cancel builder marks the register account as a signer, whose signature no operation checks',
     [('instruction.rs', """        AgnosticOrderbookInstruction::MassCancelOrders as u8,
        params,
    );
    i.accounts.push(AccountMeta {
        pubkey: register_account,
        is_signer: false,""", """        AgnosticOrderbookInstruction::MassCancelOrders as u8,
        params,
    );
    i.accounts.push(AccountMeta {
        pubkey: register_account,
        is_signer: true,""")],
     '''
    let mut w = World::new(8, 20, 1, 1);
    assert!(w.ix_mass(&[1]).accounts.iter().all(|m| !m.is_signer));
''')
# ---------------------------------------------------------------- P37, and second looks at thin properties
WITHIN = '''
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
%s        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(100)).expect("it ends");
'''
seed('p26-early-rejection', 'P26',
     'two resting orders whose prices differ in their lowest bit',
     'the removal gives up early on nodes whose price differs, also when the node is above the last bit of the price',
     [(CB, '''                    let inner = self.inner_nodes[(!child_h) as usize];
                    let (grandchild_h''', '''                    let inner = self.inner_nodes[(!child_h) as usize];
                    if inner.prefix_len >= 63 && (inner.key ^ search_key) >> 64 != 0 {
                        // no order of this price below
                        return None;
                    }
                    let (grandchild_h''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(1), 10));
    let a = w.rest(ask(px(5), 10));
    let b = w.rest(ask(px(5) + 1, 10));
    assert_eq!(w.cancel(a).unwrap().base, 10);
    let a = w.rest(ask(px(5), 10));
    assert_eq!(w.cancel(b).unwrap().base, 10);
    assert_eq!(w.cancel(a).unwrap().base, 10);
''')
seed('p24-bump-before-check', 'P24',
     'an order that does not fit in a full book and is not good enough to evict another',
     'the count of used leaf slots is raised before it is known whether a slot is left',
     [(CB, '''            if self.header.leaf_bump_index as usize >= self.leaf_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index += 1;
            return Ok(key);''', '''            let key = self.header.leaf_bump_index;
            self.header.leaf_bump_index += 1;
            if key as usize >= self.leaf_nodes.len() {
                return Err(std::io::ErrorKind::UnexpectedEof.into());
            }
            return Ok(key);''')],
     '''
    let mut w = World::new(4, 20, 1, 1);
    for n in 0..4 {
        w.rest(ask(px(5) + n, 10));
    }
    let k = w.asks;
    let before = w.data(&k).to_vec();
    assert_eq!(w.order(ask(px(9), 10)).unwrap().posted, 0);
    assert_eq!(w.data(&k), &before[..]);
''')
seed('p38-emptied-forgets-inner', 'P38',
     'a book that was full, was emptied, and is filled again',
     'when the last order leaves the slots are handed out afresh, but only those of the leaves start over',
     [(CB, '''            self.free_leaf(parent_h);

            self.header.root_node = 0;''', '''            self.header.leaf_bump_index = 0;
            self.header.leaf_free_list_len = 0;
            self.header.inner_node_free_list_len = 0;

            self.header.root_node = 0;''')],
     '''
    let mut w = World::new(4, 20, 1, 1);
    for _ in 0..2 {
        let ids: Vec<u128> = (0..4).map(|n| w.rest(ask(px(5) + n, 10))).collect();
        for i in ids {
            assert_eq!(w.cancel(i).unwrap().base, 10);
        }
    }
''')
seed('p20-bid-sequence-32-bits', 'P20',
     'two bids of one price around the order with number 2^32',
     'the sequence number of a bid is turned over in its lower half only',
     [(EQ, 'Side::Bid => !seq_num,', 'Side::Bid => seq_num ^ (u32::MAX as u64),')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let k = w.eq;
    let mut d = w.data(&k).to_vec();
    let at = (8..32).step_by(8).find(|o| {
        let mut e = d.clone();
        put64(&mut e, *o, 0xffff_fff0);
        w.data_mut(&k).copy_from_slice(&e);
        let i = w.rest(ask(px(5), 10));
        w.data_mut(&k).copy_from_slice(&d);
        w.cancel(i).unwrap();
        i as u64 == 0xffff_fff0
    }).unwrap();
    put64(&mut d, at, 0xffff_ffff);
    w.data_mut(&k).copy_from_slice(&d);
    let a = w.rest(bid(px(5), 10).user(3));
    let b = w.rest(bid(px(5), 10).user(4));
    assert!(a > b, "the earlier bid comes first");
''')
seed('p10-fill-of-offer', 'P10',
     'a taker that takes a part of a resting order and leaves less than the minimum size',
     'when a fill leaves less than the minimum the fill event reports the whole resting order',
     [(NO, '''                base_size: base_trade_qty,
                tag: EventTag::Fill as u8,''', '''                base_size: if offer_size - base_trade_qty < min_base_order_size {
                    offer_size
                } else {
                    base_trade_qty
                },
                tag: EventTag::Fill as u8,''')],
     '''
    let mut w = World::new(8, 20, 4, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(5), 8).ioc()).unwrap();
    assert_eq!(s.base, 8);
    assert!(matches!(w.events()[0], Ev::Fill { base: 8, .. }), "{:?}", w.events());
''')
seed('p12-posted-quote-of-rest', 'P12',
     'an order that trades a part and posts the rest while its quote cap exceeds what is posted',
     'a posted order is reported to have used all of its quote',
     [(NO, '''        Ok(OrderSummary {
            posted_order_id: Some(new_leaf_order_id),''', '''        if base_qty_remaining == 0 && base_qty_to_post != max_base_qty && side == Side::Bid {
            quote_qty_remaining = 0;
        }
        Ok(OrderSummary {
            posted_order_id: Some(new_leaf_order_id),''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(5), 14).quote(1000)).unwrap();
    assert_eq!((s.base, s.quote, s.posted), (14, 70, 4));
''')
seed('p17-minimum-of-taker', 'P17',
     'a fill that leaves a resting order below the minimum size when the taker is not finished',
     'a resting order that fell below the minimum is removed only if the taker is finished or it is empty',
     [(NO, '''            if best_bo_ref.base_quantity < min_base_order_size {
                let best_offer_id''', '''            if best_bo_ref.base_quantity == 0
                || best_bo_ref.base_quantity < min_base_order_size && base_qty_remaining == 0
            {
                let best_offer_id''')],
     '''
    let mut w = World::new(8, 20, 4, 1);
    w.rest(ask(px(5), 10).user(2));
    // the quote cap ends the trade after 8 units
    let s = w.order(bid(px(5), 20).quote(42).ioc()).unwrap();
    assert_eq!(s.base, 8);
    assert!(w.book(Side::Ask).is_empty());
''')
seed('p09-quote-cap-of-first-price', 'P09',
     'a taker ask with a quote cap that trades at two prices',
     'once a taker ask has traded, its next fills are not limited by its quote cap: a maker bid gets the base and pays only the rest of the cap',
     [(NO, '''                .min(fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX));''',
       '''                .min(match side {
                    Side::Ask if quote_qty_remaining != max_quote_qty => base_qty_remaining,
                    _ => fp32_div(quote_qty_remaining, best_bo_ref.price()).unwrap_or(u64::MAX),
                });''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(px(6), 10).user(2));
    w.rest(bid(px(5), 10).user(2));
    let s = w.order(ask(px(5), 20).quote(80).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (14, 80));
''')
seed('p27-minimum-of-pair', 'P27',
     'a book with exactly two orders on a side',
     'the highest order of a book with two orders is taken from the wrong child when they share their price',
     [(CB, '''                    root = node.children[if find_max { 1 } else { 0 }];''',
       '''                    let last = find_max && !(self.header.leaf_count == 2 && node.prefix_len > 64);
                    root = node.children[if last { 1 } else { 0 }];''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(bid(px(5), 10).user(2));
    w.rest(bid(px(5), 10).user(3));
    w.order(ask(px(5), 10).user(4).ioc()).unwrap();
    assert!(matches!(w.events()[0], Ev::Fill { maker, maker_cb: 2, .. } if maker == a), "{:?}", w.events());
''')
seed('p25-prefix-of-price', 'P25',
     'several resting orders of one price',
     'an inner node keeps only the price of the keys below it, also when they share more than that',
     [(CB, '''                new_root_node.key = new_leaf.order_id();''',
       '''                new_root_node.key = new_leaf.order_id() & !(u64::MAX as u128);''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let ids: Vec<u128> = (0..6).map(|_| w.rest(bid(px(5), 10).user(2))).collect();
    for i in ids {
        assert_eq!(w.cancel(i).unwrap().base, 10);
    }
    assert!(w.book(Side::Bid).is_empty());
''')
seed('p23-head-masked', 'P23',
     'a queue whose capacity is not a power of two, once its head reaches a number the mask cuts',
     'the head of the ring is advanced with a mask, which is right for capacities that are powers of two',
     [(EQ, """            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);""",
       """            (self.header.head + capped_number_of_entries_to_pop) & (self.events.len() as u64 - 1);""")],
     """
    let mut w = World::new(8, 10, 1, 1);
    for _ in 0..4 {
        w.rest(ask(px(5), 10).user(2));
        w.order(bid(px(5), 10).user(7).ioc()).unwrap();
    }
    let mut e = w.events();
    assert_eq!(e.len(), 8);
    while !e.is_empty() {
        w.consume(1).unwrap();
        e.remove(0);
        assert_eq!(format!("{:?}", w.events()), format!("{:?}", e));
    }
""")
seed('p33-removal-counts-twice', 'P33',
     'a match limit of which one is left when a resting order is used up',
     'a fill that uses up a resting order takes two from the match limit, also when only one is left',
     [(NO, """                event_queue
                    .push_back(out_event, Some(out_event_callback_info), None)
                    .map_err(|_| AoError::EventQueueFull)?;
            }
""", """                event_queue
                    .push_back(out_event, Some(out_event_callback_info), None)
                    .map_err(|_| AoError::EventQueueFull)?;
                match_limit -= 1;
            }
""")],
     """
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.rest(ask(px(6), 10).user(2));
    let s = w.order(bid(px(6), 20).limit(1).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (10, 50));
""")
seed('p37-pop-up-to-ring-end', 'P37',
     'a consume that starts or passes at the last slot of the ring',
     'events are popped in rounds that end at the end of the ring, and the round at its last slot is empty',
     [(EQ, """        self.header.count -= capped_number_of_entries_to_pop;
        self.header.head =
            (self.header.head + capped_number_of_entries_to_pop) % (self.events.len() as u64);
""", """        let last = self.events.len() as u64 - 1;
        let mut left = capped_number_of_entries_to_pop;
        while left > 0 {
            let round = std::cmp::min(left, last - self.header.head);
            self.header.count -= round;
            self.header.head = (self.header.head + round) % (last + 1);
            left -= round;
        }
""")],
     WITHIN % """        let mut w = World::new(8, 5, 1, 1);
        for _ in 0..4 {
            w.rest(ask(px(5), 10).user(2));
            w.order(bid(px(5), 10).ioc()).unwrap();
            w.consume(2).unwrap();
        }
""")
seed('p16-identity-prefix', 'P16',
     'two users of the built-in 32-byte callback information whose first halves agree',
     'the identity of a built-in callback information is its first half only',
     [(NO, '''    type CallbackId = Self;

    fn as_callback_id(&self) -> &Self::CallbackId {
        self
    }''', '''    type CallbackId = [u8; 16];

    fn as_callback_id(&self) -> &Self::CallbackId {
        bytemuck::from_bytes(&self[..16])
    }''')],
     '''
    use aob::state::orderbook::CallbackInfo;
    let a = [7u8; 32];
    for n in 0..32 {
        let mut b = a;
        b[n] ^= 1;
        assert!(a.as_callback_id() != b.as_callback_id(), "byte {}", n);
    }
    assert!(a.as_callback_id() == [7u8; 32].as_callback_id());
''')
PMC = 'processor/mass_cancel_orders.rs'
seed('p08-limit-first-round-only', 'P08',
     'a taker ask that reaches a second price below its limit, with a self-trade policy that aborts',
     'once an aborting taker ask has traded, its limit is no longer looked at',
     [(NO, '''                Side::Ask => limit_price <= trade_price,
            };
''', '''                Side::Ask => {
                    limit_price <= trade_price
                        || self_trade_behavior == SelfTradeBehavior::AbortTransaction
                            && base_qty_remaining != max_base_qty
                }
            };
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(px(6), 10).user(2));
    w.rest(bid(px(4), 10).user(2));
    let s = w.order(ask(px(5), 20).stb(SelfTradeBehavior::AbortTransaction).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (10, 60));
''')
seed('p08-post-only-locks', 'P08',
     'a post-only order whose limit equals the best opposite price',
     'a post-only order trades at a price equal to its limit',
     [(NO, '''            if post_only || !crossed {''', '''            if post_only && limit_price != trade_price || !crossed {''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(5), 5).post_only()).unwrap();
    assert_eq!((s.base, s.posted), (0, 0));
    assert!(w.events().is_empty());
''')
seed('p15-zero-is-unlimited', 'P15',
     'an order with a match limit of zero against a book it crosses',
     'a match limit of zero stands for no limit',
     [(NO, '''        let mut crossed = true;
        loop {
            if match_limit == 0 {''', '''        let mut crossed = true;
        let unlimited = match_limit == 0;
        loop {
            if match_limit == 0 && !unlimited {'''),
      (NO, '''                        .unwrap();

                    match_limit -= 1;

                    continue;''', '''                        .unwrap();

                    match_limit = match_limit.saturating_sub(1);

                    continue;'''),
      (NO, '''            match_limit -= 1;
        }
''', '''            match_limit = match_limit.saturating_sub(1);
        }
''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    let s = w.order(bid(px(5), 5).limit(0)).unwrap();
    assert_eq!((s.base, s.posted), (0, 0));
    assert!(w.events().is_empty());
''')
seed('p22-eviction-event-dropped', 'P22',
     'a full book and a full queue when a better order arrives',
     'the out event of an evicted order is dropped when the queue is full, and the order is placed',
     [(NO, '''                    .push_back(out, Some(callback_info_booted), None)
                    .map_err(|_| AoError::EventQueueFull)?;''', '''                    .push_back(out, Some(callback_info_booted), None)
                    .ok();''')],
     '''
    let mut w = World::new(4, 5, 1, 1);
    w.rest(ask(px(5), 100).user(2));
    for _ in 0..5 {
        w.order(bid(px(5), 5).ioc()).unwrap();
    }
    while w.book(Side::Bid).len() < 4 {
        w.rest(bid(px(2), 10).user(3));
    }
    assert_eq!(w.events().len(), 5);
    assert!(w.order(bid(px(3), 10).user(4)).is_err());
    assert_eq!(w.book(Side::Bid).len(), 4);
''')
seed('p30-side-of-first', 'P30',
     'a mass cancel of orders of both sides',
     'the side of all listed orders is taken from the first id',
     [(PMC, '''    for order_id in params.order_ids {
        let slab = order_book.get_tree(get_side_from_order_id(order_id));''',
       '''    let mut side = None;
    for order_id in params.order_ids {
        let side = *side.get_or_insert(get_side_from_order_id(order_id));
        let slab = order_book.get_tree(side);''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let a = w.rest(bid(px(5), 10).user(2));
    let b = w.rest(ask(px(6), 10).user(2));
    assert_eq!(w.mass(&[a, b]).unwrap().base, 20);
''')
seed('p09-price-of-first-maker', 'P09',
     'a taker that trades with two resting orders of different prices',
     'the quote of every fill is computed at the price of the first resting order',
     [(NO, '''        let mut crossed = true;
        loop {''', '''        let mut crossed = true;
        let mut first_price = None;
        loop {'''),
      (NO, '''                Side::Ask => fp32_mul_floor(base_trade_qty, trade_price),
            }
            .map(|q| std::cmp::min(q, quote_qty_remaining))''', '''                Side::Ask => {
                    fp32_mul_floor(base_trade_qty, *first_price.get_or_insert(trade_price))
                }
            }
            .map(|q| std::cmp::min(q, quote_qty_remaining))''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(bid(px(6), 10).user(2));
    w.rest(bid(px(5), 10).user(2));
    let s = w.order(ask(px(5), 20).ioc()).unwrap();
    assert_eq!((s.base, s.quote), (20, 110));
''')
seed('p38-equal-key-relinked', 'P38',
     'an insertion below an inner node that shares all bits but the last few with the new key',
     'prefixes longer than a price and a half are compared a byte at a time',
     [(CB, '''                    let keep_old_root = shared_prefix_len >= root_node.prefix_len as u32;''',
       '''                    let keep_old_root = shared_prefix_len >= root_node.prefix_len as u32
                        || root_node.prefix_len > 120 && shared_prefix_len / 8 == 15;''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    let ids: Vec<u128> = (0..4).map(|_| w.rest(ask(px(5), 10).user(2))).collect();
    for id in ids {
        assert_eq!(w.book(Side::Ask).len() > 0, true);
        w.consume(5).unwrap();
        w.order(bid(px(5), 10).ioc()).unwrap();
        assert!(matches!(w.events()[0], Ev::Fill { maker, .. } if maker == id), "{:?}", w.events());
    }
''')
# round: capacity, caps, cells
seed('p31-capacity-16-bit', 'P31',
     'a book of more than 65536 orders',
     'the number of inner nodes of a book is kept in 16 bits',
     [(CB, '''        let capacity = (buf.len() - SlabHeader::LEN - 8 - leaf_size) / (leaf_size + InnerNode::LEN);
''', '''        let capacity = (buf.len() - SlabHeader::LEN - 8 - leaf_size) / (leaf_size + InnerNode::LEN);
        let capacity = capacity.min(u16::MAX as usize);
''')],
     '''
    let mut w = World::new(66000, 5, 1, 1);
    let id = w.rest(bid(px(5), 10).user(7));
    assert_eq!(w.book(Side::Bid), vec![(id, 10, 7)]);
''')
seed('p33-self-cancel-free', 'P33',
     'an order that would trade with several orders of its own and may only match once',
     'cancelling a resting order of the same user is not counted as a match',
     [(NO, '''                    match_limit -= 1;

                    continue;''', '''                    continue;''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    for _ in 0..3 {
        w.rest(ask(px(5), 10).user(1));
    }
    w.order(bid(px(5), 10).user(1).stb(SelfTradeBehavior::CancelProvide).limit(1).ioc()).unwrap();
    assert_eq!(w.book(Side::Ask).len(), 2);
''')
seed('p10-fill-at-limit', 'P10',
     'a taker that trades with a resting order at a better price than its limit',
     'the event of a fill that empties the taker carries the quote that is left, not what was traded',
     [(NO, '''                quote_size: quote_maker_qty,
                base_size: base_trade_qty,''', '''                quote_size: if base_trade_qty == base_qty_remaining && side == Side::Bid {
                    fp32_mul_ceil(base_trade_qty, limit_price)
                        .map(|q| q.min(quote_qty_remaining))
                        .unwrap_or(quote_maker_qty)
                } else {
                    quote_maker_qty
                },
                base_size: base_trade_qty,''')],
     '''
    let mut w = World::new(8, 20, 1, 1);
    w.rest(ask(px(5), 10).user(2));
    w.order(bid(px(7), 10).ioc()).unwrap();
    assert!(matches!(w.events()[0], Ev::Fill { quote: 50, .. }), "{:?}", w.events());
''')
