#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = 'program/src/'
def prop(i, title, stmt, over, q, why, files, mech, observe=None, state=None):
    d = dict(id=i, title=title, statement=stmt, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith('js/') else P + f for f in files],
                          mechanism=[dict(name=n, where=(w if w.startswith('js/') else P + w)) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=P + c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    return d
PROC = ['processor/new_order.rs', 'processor/cancel_order.rs', 'processor/mass_cancel_orders.rs',
        'processor/consume_events.rs', 'processor/close_market.rs', 'processor/create_market.rs']
TESTS = 'The functional test only runs the happy path with well-formed accounts.'
OB = 'The four book tests place a handful of fixed orders; '
L = []
a = L.append

# ---------------------------------------------------------------- accounts and lifecycle
a(prop('P01', 'Only program-owned accounts are ever acted upon',
 'For new-order, cancel, mass-cancel and consume-events, every market, event queue, bids and asks account the instruction takes must be owned by the program, and otherwise the instruction fails with the error designated for that account before any account data is read or written. Market creation checks the event queue, bids and asks the same way, and market closing checks the market.',
 ['inputs', 'configurations'], 'every instruction, every account list an attacker can supply, every owner',
 TESTS + ' No test supplies an account with a foreign owner, for any of the 19 (instruction, account) pairs.',
 PROC + ['utils.rs'], [('perform_checks of each instruction', 'processor/*.rs'), ('check_account_owner', 'utils.rs')],
 ['error returned by process_instruction']))
a(prop('P02', 'Queue and books are bound to their market record',
 'New-order, cancel, mass-cancel and market closing touch event queue, bids and asks data only after each of the three account addresses was found equal to the corresponding address recorded in the supplied market; consume-events does so for the event queue. A mismatch fails with the error designated for that account.',
 ['inputs', 'configurations'], 'every instruction, every combination of accounts of this or other markets, including swapped bids and asks',
 TESTS + ' No test mixes accounts of two markets or swaps the two books.',
 PROC + ['utils.rs', 'state/market_state.rs'], [('check_accounts of each instruction', 'processor/*.rs'), ('check_account_key', 'utils.rs')],
 ['error returned by process_instruction']))
a(prop('P03', 'Account type tags gate every typed view of account data',
 'Account bytes are interpreted as a market, event queue, bids or asks structure only when the stored type tag equals the tag for exactly that role, and market creation accepts only uninitialised accounts and stamps each with its own role tag. A mismatching tag is an error and leaves the account unmodified, and an account disabled by market closing is never accepted again.',
 ['inputs', 'histories'], 'every account content, every role, every order of create, use and close',
 TESTS + ' No test feeds an account of the wrong type, re-creates a market, or uses a closed one.',
 ['state.rs', 'state/market_state.rs', 'state/event_queue.rs', 'state/critbit.rs', 'state/orderbook.rs'] + PROC,
 [('from_buffer with an expected tag', 'state/{market_state,event_queue,critbit}.rs'), ('Slab::initialize', 'state/critbit.rs'), ('AccountTag', 'state.rs')]))
a(prop('P04', 'A market closes only when empty, and completely',
 'Closing a market succeeds only if both books hold no orders and the event queue holds no events. On success all four accounts carry the disabled tag and zero lamports, and the target account gains exactly the sum of the four former balances; when the market is still active, nothing changes.',
 ['inputs', 'histories'], 'every reachable state of the books and queue, every balance',
 TESTS + ' Closing a non-empty market and the lamport sum are not asserted.',
 ['processor/close_market.rs', 'state/orderbook.rs'], [('emptiness checks, tag writes and lamport moves', 'processor/close_market.rs:process'), ('OrderBookState::is_empty', 'state/orderbook.rs')]))
a(prop('P05', 'Instruction encoding, dispatch and account slots agree',
 'For every instruction, the client-side builder emits the instruction code that the dispatcher routes to that very operation, lists the accounts in the order the operation parses them, marks as writable every account the operation mutates, demands the signature of no account whose signature the operation does not check, and appends the register account last and writable. The dispatcher runs exactly one operation, decodes the parameters from the bytes after the code, and rejects unknown codes.',
 ['inputs', 'programs'], 'all six instructions, every account list and parameter value',
 'Only the instructions the functional test happens to send are exercised; a builder that is never called there can encode anything.',
 ['instruction.rs', 'processor.rs', 'entrypoint.rs'] + PROC, [('instruction builders', 'instruction.rs'), ('process_instruction match', 'processor.rs'), ('Accounts::parse and the derived account lists', 'processor/*.rs')]))
a(prop('P06', 'Market creation validates and records what it was given',
 'Market creation fails unless all four accounts are rent exempt, the minimum base order size and the tick size are both non-zero, the event queue holds a whole number of at least five event slots and the market account has exactly the market size. On success the market record holds the addresses of the supplied event queue, bids and asks accounts and the two given parameters.',
 ['inputs', 'configurations'], 'every parameter value and every account size',
 TESTS + ' Every rejected configuration is untested.',
 ['processor/create_market.rs', 'state/event_queue.rs', 'state/market_state.rs'], [('process and check_rent', 'processor/create_market.rs'), ('check_buffer_size', 'state/event_queue.rs, state/market_state.rs')]))
a(prop('P07', 'Order prices respect the tick size',
 'A new order whose limit price is not a multiple of the market\'s tick size is rejected with the invalid-limit-price error, and so is one that may be posted with a price below one tick; both happen before any book or queue data changes. The price-rounding helper returns the nearest tick multiple not above the price for bids and not below it for asks.',
 ['inputs'], 'every limit price, tick size, side and posting flag',
 'The book tests bypass the instruction and its price checks; the rounding test uses one price.',
 ['processor/new_order.rs', 'utils.rs'], [('limit price checks', 'processor/new_order.rs:process'), ('round_price', 'utils.rs')]))
# ---------------------------------------------------------------- matching
a(prop('P08', 'No fill beyond the limit price, and post-only never trades',
 'A taker bid is never filled at a price above its limit and a taker ask never below it, and equality still trades. A post-only order never produces a fill and never modifies or removes a resting order of the other side.',
 ['inputs', 'histories'], 'every book state, both sides, every limit price and flag combination',
 OB + 'no test asserts the absence of a fill beyond the limit or for a post-only order.',
 ['state/orderbook.rs'], [('crossing test in the matching loop', 'state/orderbook.rs:new_order')], ['Fill events']))
a(prop('P09', 'Takers always trade against the best opposite order, at its price',
 'Each fill is made against the resting order that is best on the opposite side at that moment: lowest ask for a taker bid, highest bid for a taker ask. The quote amount of the fill is the base amount converted at that resting order\'s price, never at the taker\'s limit.',
 ['inputs', 'histories'], 'every book state and order, every iteration of the matching loop',
 OB + 'with at most two resting orders and equal sides they cannot tell best-first from another order.',
 ['state/orderbook.rs', 'state/critbit.rs'], [('find_bbo', 'state/orderbook.rs'), ('trade price selection', 'state/orderbook.rs:new_order')], ['Fill events']))
a(prop('P10', 'Every fill is recorded once and decrements both parties equally',
 'Each trade enqueues exactly one fill event carrying the taker side, the maker order id, and the base and quote amounts by which the maker\'s resting quantity and the taker\'s remaining amounts are reduced, with the maker\'s and the taker\'s callback information in their respective slots. No resting quantity is changed without such an event.',
 ['inputs', 'histories'], 'every sequence of fills, both sides',
 OB + 'the event contents of fills are never asserted, and no test compares the sum of fills with the decrements.',
 ['state/orderbook.rs', 'state/event_queue.rs'], [('fill event construction and decrements', 'state/orderbook.rs:new_order'), ('push_back', 'state/event_queue.rs')], ['Fill events', 'resting quantities']))
a(prop('P11', 'A taker never trades or posts more than its base and quote caps',
 'The base traded and posted by an order never exceeds its maximum base quantity, each fill never exceeds the maker\'s resting quantity, and the quote traded never exceeds its maximum quote quantity. An empty trade (zero base or zero quote) is never recorded.',
 ['inputs', 'histories'], 'every order and every book state, every iteration',
 OB + 'caps are hit only by the base side, once.',
 ['state/orderbook.rs'], [('minimum over offer, base remaining and quote-limited base', 'state/orderbook.rs:new_order')], ['Fill events', 'order summary']))
a(prop('P12', 'The order summary equals what was traded plus what was posted',
 'The summary returned for a new order reports as total base and quote exactly the sums over the fills it produced plus, if it was posted, the posted base quantity and its quote value at the limit price; the posted base quantity is reported separately and is zero, with no order id, when nothing was posted. A posted order\'s reported id is the id under which it rests.',
 ['inputs', 'histories'], 'every order, number of fills and exit path of the matching and posting logic',
 OB + 'they check the totals of unmatched orders; the sum over several fills and the early exits are unchecked.',
 ['state/orderbook.rs'], [('summary construction at three exits', 'state/orderbook.rs:new_order')], ['OrderSummary']))
a(prop('P13', 'Quote rounding always goes against the taker bid and the posting bid',
 'When base is converted to quote, a bid taker\'s quote is rounded up and an ask taker\'s is rounded down, for fills and for the posted remainder alike; the amount a cancellation reports is rounded down. An overflowing conversion is an error rather than a wrapped amount.',
 ['inputs'], 'all base amounts and prices, both sides',
 OB + 'prices in them convert exactly, so both rounding directions give the same result.',
 ['state/orderbook.rs', 'processor/cancel_order.rs', 'processor/mass_cancel_orders.rs'], [('side-dependent ceil/floor conversion', 'state/orderbook.rs:new_order')], ['Fill events', 'OrderSummary']))
a(prop('P14', 'Only an allowed, non-crossing, large-enough remainder is posted',
 'An order rests in its own side\'s book only if posting was allowed, the opposite book is empty or its best price is not crossed by the limit price, and the remainder is at least the minimum base order size. The resting order carries the limit price, the remaining base bounded by what the remaining quote can buy at that price, and the callback information of the order.',
 ['inputs', 'histories'], 'every flag combination, book state and remainder, including exhaustion of the match limit',
 OB + 'none exhausts the match limit, forbids posting with a remainder, or leaves a small remainder.',
 ['state/orderbook.rs'], [('posting condition and new leaf construction', 'state/orderbook.rs:new_order')], ['book contents', 'OrderSummary']))
a(prop('P15', 'An order consumes at most its match limit',
 'The number of resting orders an order matches against or self-trade-cancels never exceeds its match limit, and an order that stops because the limit is reached is not posted.',
 ['inputs', 'histories'], 'every match limit, including zero, and every book depth',
 OB + 'the limit of ten is never reached.',
 ['state/orderbook.rs'], [('match_limit countdown', 'state/orderbook.rs:new_order')], ['number of events']))
a(prop('P16', 'Self-trade policy is honoured',
 'When the best opposite order has the taker\'s callback identity: under abort the whole order fails with the self-trade error, under cancel-provide the resting order is removed with an out event and no fill, and only under decrement-take may the two be filled against each other. Orders of different identity are never affected by the policy. The identity of the built-in 32-byte callback information is all of its bytes.',
 ['inputs', 'histories'], 'the three policies, every callback identity, every book state',
 OB + 'one test covers cancel-provide once; abort is never exercised.',
 ['state/orderbook.rs'], [('self-trade branch', 'state/orderbook.rs:new_order')], ['events', 'returned error']))
a(prop('P17', 'No resting order is left below the minimum size by a fill',
 'After a fill, the maker order is removed, with an out event carrying its leftover quantity, exactly when its remaining quantity is below the minimum base order size. A maker with a remainder at or above the minimum keeps resting.',
 ['inputs', 'histories'], 'every maker quantity, fill amount and minimum size',
 OB + 'the boundary (remainder equal to the minimum) is never hit.',
 ['state/orderbook.rs'], [('post-fill removal', 'state/orderbook.rs:new_order')], ['out events', 'book contents']))
a(prop('P18', 'Eviction: only from a full book, only the worst, only for a better price',
 'When the book is full, a new order is posted only by removing the least aggressive order of its own side (lowest bid or highest ask) and only if its price is strictly worse than the new order\'s limit price; otherwise nothing is removed and the order is not posted. A book with room never evicts.',
 ['inputs', 'histories'], 'every full book and limit price, both sides',
 OB + 'capacity-two books with distinct prices; the tie at equal price is never exercised.',
 ['state/orderbook.rs'], [('boot branch', 'state/orderbook.rs:new_order')], ['out events', 'book contents']))
a(prop('P19', 'Every order removed by another order is announced faithfully',
 'Whenever placing an order removes a resting order (dust removal, self-trade cancellation or eviction), exactly one out event is enqueued with that order\'s id, the side of the book it rested in, its remaining quantity and its own callback information. A removal whose event cannot be enqueued fails the whole instruction.',
 ['inputs', 'histories'], 'every removal path, both sides, every queue fill level',
 OB + 'three removals are checked, none with a full queue, and self-trade and dust removal only for asks.',
 ['state/orderbook.rs', 'state/event_queue.rs'], [('three out-event sites', 'state/orderbook.rs:new_order')], ['Out events']))
# ---------------------------------------------------------------- ids, queue
a(prop('P20', 'Order ids are unique and order the book by price, then time',
 'Each posted order gets an id whose upper half is its price and whose lower half is a sequence number that is used once and then advanced, stored complemented for bids. Hence ascending ids mean ascending asks with earlier orders first and, at equal price, an earlier bid has the greater id; the side can be read back from the id.',
 ['histories', 'inputs'], 'every sequence of orders over the life of a queue',
 'Tests never compare ids of two orders at the same price.',
 ['state/event_queue.rs', 'state.rs', 'state/critbit.rs'], [('gen_order_id and gen_seq_num', 'state/event_queue.rs'), ('get_side_from_order_id', 'state.rs'), ('price_from_key', 'state/critbit.rs')], ['order ids']))
a(prop('P21', 'The event queue is a FIFO ring',
 'An event is stored in the slot just after the last pending one (modulo capacity) with its callback information in that slot\'s own pair of callback cells, the count grows by one and no other slot, callback cell or the head changes. Reading at a position and iterating return the pending events in the order they were enqueued, each with its own kind and callback information, and nothing beyond the count.',
 ['histories', 'inputs'], 'every head, count and capacity, every interleaving of enqueue and consume',
 'The queue test does not wrap around with interleaved consumption and does not check callback cells for all positions.',
 ['state/event_queue.rs'], [('push_back, peek_at, get_event, QueueIterator', 'state/event_queue.rs')], ['events read back'],
 [('head/count', 'first pending slot and number pending', 'state/event_queue.rs')]))
a(prop('P22', 'A full event queue refuses new events and keeps the old',
 'Enqueueing into a full queue fails and changes nothing; no pending event is ever overwritten. An order whose event cannot be enqueued fails as a whole with the queue-full error.',
 ['histories', 'inputs'], 'every capacity and fill level, every enqueue site',
 'No test fills a queue during matching.',
 ['state/event_queue.rs', 'state/orderbook.rs'], [('full() guard', 'state/event_queue.rs:push_back'), ('map_err at each enqueue site', 'state/orderbook.rs')]))
a(prop('P23', 'Consumption removes exactly the oldest events, never more than pending',
 'Consuming n events advances the head, modulo capacity, and lowers the count by the smaller of n and the number pending, and touches nothing else. No other operation moves the head or lowers the count.',
 ['histories', 'inputs'], 'every n, including more than pending, and every wrap position',
 'Tests pop one or a few events from the front of a short queue.',
 ['state/event_queue.rs', 'processor/consume_events.rs'], [('pop_n', 'state/event_queue.rs'), ('process', 'processor/consume_events.rs')]))
# ---------------------------------------------------------------- slab
a(prop('P24', 'Slab slots are allocated from the free list, else fresh, never twice',
 'Allocating a leaf or inner node returns the head of the free list and unlinks exactly it, or, when the list is empty, the next never-used slot if one is left, and otherwise fails without change. Freeing links exactly the freed slot in front of the list and preserves the rest of the list, and does not disturb the freed order\'s callback information.',
 ['histories'], 'every sequence of allocations and frees, both node kinds',
 'The simulation tests run random sequences on large slabs and never exhaust one.',
 ['state/critbit.rs'], [('allocate_leaf, free_leaf, allocate_inner_node, free_inner_node', 'state/critbit.rs')]))
a(prop('P25', 'Inserting an order links exactly one new leaf and keeps search order',
 'Inserting a new key descends by the branching bits while the prefix matches, then adds one leaf and (unless the tree was empty) one inner node with the exact shared-prefix length whose two children are the new leaf and the displaced subtree, on the sides given by their branching bit, in place of the displaced subtree; the order count grows by one. An insertion that fails for lack of space changes nothing.',
 ['histories', 'inputs'], 'every tree and key',
 'Random simulation samples trees over random keys; adjacent keys, deep prefixes and full slabs are not reached.',
 ['state/critbit.rs'], [('insert_leaf, walk_down', 'state/critbit.rs')]))
a(prop('P26', 'Removing an order unlinks exactly it and returns its data',
 'Removing a key returns the stored order with exactly that key together with its own callback information, replaces its parent by its sibling in place, frees exactly its leaf and that parent, and lowers the order count by one. When no order has that key nothing changes, and the absence is reported without panicking.',
 ['histories', 'inputs'], 'every tree and key, present or absent, including stale freed slots',
 'The simulation removes only keys that are present.',
 ['state/critbit.rs'], [('remove_by_key', 'state/critbit.rs')]))
a(prop('P27', 'Minimum, maximum and iteration follow key order',
 'The minimum (maximum) lookup returns the leaf reached by always taking the low (high) child from the root, or nothing when the book is empty; lookup by key returns only the leaf with that key. Iteration visits every order once, in ascending or descending key order as requested, and the best bid is the maximum of the bids and the best ask the minimum of the asks.',
 ['inputs', 'histories'], 'every tree, both directions',
 'Iteration is only sampled by one simulation and the descending direction not at all.',
 ['state/critbit.rs', 'state/orderbook.rs'], [('find_min_max, SlabIterator::next, find_by_key', 'state/critbit.rs'), ('find_bbo, get_spread', 'state/orderbook.rs')]))
a(prop('P28', 'Leaf and inner node references are never confused',
 'A node reference is used to index the order array or the callback array only where it is known to denote an order, and its complement to index the inner-node array only where it is known to denote an inner node. Creating a reference follows the same encoding: fresh inner-node references are complemented indices and carry the inner flag.',
 ['histories', 'inputs'], 'every array access in the tree code, all paths leading to it',
 'A confusion only shows on shapes the tests do not reach, such as removing an absent key from a one-order book.',
 ['state/critbit.rs'], [('Node::from_handle and the ! encoding', 'state/critbit.rs')]))
# ---------------------------------------------------------------- cancel
a(prop('P29', 'Cancelling removes exactly the named order and reports what was left',
 'Cancelling an order removes from the side its id denotes exactly the order with that id, enqueues nothing, and reports its remaining base, that base at the order\'s own price as quote, no order id and nothing posted. An id that is not resting fails with the order-not-found error.',
 ['inputs', 'histories'], 'every id, present or absent, both sides',
 TESTS + ' It cancels one resting order and never an absent one.',
 ['processor/cancel_order.rs', 'state.rs'], [('process', 'processor/cancel_order.rs')], ['OrderSummary', 'book contents']))
a(prop('P30', 'Mass cancel is all-or-nothing and reports the sums',
 'Mass cancelling removes every listed order from the side its id denotes and reports the sums of the remaining base and of its quote value at each order\'s own price, with overflow never wrapping silently. If any listed order is not resting, the whole instruction fails with the order-not-found error.',
 ['inputs', 'histories'], 'every list of ids, including empty, duplicate and absent ids',
 'Mass cancel is not exercised by any test.',
 ['processor/mass_cancel_orders.rs'], [('process loop', 'processor/mass_cancel_orders.rs')], ['OrderSummary']))
# ---------------------------------------------------------------- layout, errors
a(prop('P31', 'Account regions never overlap, and sizing agrees with layout',
 'A book or queue view splits its account into the tag, the header, and arrays whose regions are disjoint, in order, and hold for every slot of the node or event array a callback cell (two per event). The published allocation size for a capacity yields a view with exactly that capacity and no bytes left over.',
 ['inputs', 'configurations'], 'every capacity and every callback size',
 'Tests use two capacities and a 32-byte callback only.',
 ['state/critbit.rs', 'state/event_queue.rs', 'state/market_state.rs'], [('from_buffer and compute_allocation_size', 'state/critbit.rs, state/event_queue.rs')]))
a(prop('P32', 'Failures surface and successes are reported in the register',
 'Whenever a check or an operation on the market, books or queue fails, the instruction returns an error instead of continuing or reporting success, and no error is swallowed. On success the entry point writes the operation\'s result into the last account given, and on failure it writes nothing there.',
 ['inputs', 'fault_sequences'], 'every fallible call in the instruction processors and the entry point',
 TESTS,
 ['entrypoint.rs', 'processor.rs'] + PROC + ['state/orderbook.rs'], [('process_instruction', 'entrypoint.rs, processor.rs'), ('the ? operator and map_err at each call', 'processor/*.rs')]))
a(prop('P33', 'Quantity arithmetic on balances never wraps',
 'Every subtraction that updates a resting quantity, a taker\'s remaining amount or match budget, the pending event count or a free-list length is preceded by a condition or a minimum that keeps it from going below zero.',
 ['inputs', 'histories'], 'every subtraction on those quantities, for all inputs',
 'Release builds wrap silently; tests run small numbers with overflow checks on.',
 ['state/orderbook.rs', 'state/event_queue.rs', 'state/critbit.rs'], [('subtractions in new_order, pop_n, iterators and allocators', 'state/*.rs')]))
a(prop('P34', 'Read-only helpers leave books and queue untouched',
 'Best-order lookups, spread queries, emptiness and length queries, order and event lookups and iteration never modify the book or the queue, and order placement and cancellation never modify the market record.',
 ['histories', 'inputs'], 'all read-only entry points and all states',
 'Tests do not compare full states before and after a query.',
 ['state/critbit.rs', 'state/event_queue.rs', 'state/orderbook.rs', 'utils.rs'], [('methods taking a shared reference; market_state parameter', 'state/*.rs')]))
# ---------------------------------------------------------------- JS
a(prop('P35', 'The TypeScript client uses the layout, codes and accounts of the program',
 'The TypeScript client reads every field of the market, of the book and queue headers, of the nodes and of the events, and every callback information, from the bytes where the program writes it, for accounts of any size and any length of the callback information. Its enums have the values of the program, its size computations those of the program, and the accounts it creates for a market have these sizes. Its instruction builders send the code, the parameters in the encoding and the accounts in the order that the program expects.',
 ['inputs', 'programs'], 'every account and instruction the client handles, for any capacity and callback length',
 'There are no tests for the client but one that needs a running validator.',
 ['js/src/slab.ts', 'js/src/event_queue.ts', 'js/src/market_state.ts', 'js/src/raw_instructions.ts', 'js/src/bindings.ts'],
 [('borsh schemas, constructors, getNode, getCallBackInfo, parse, parseEvent, computeAllocationSize, getInstruction, createMarket', 'js/src/*.ts')]))
a(prop('P41', 'The queries of the TypeScript client agree with the book and the queue they read',
 'In the TypeScript client, a search for a key descends by the critical bits, returns the order with exactly this key and nothing when it is absent. Iterating a book yields every order once, in key order upwards or downwards, with its own callback information; the best-orders query returns its first ones up to the number asked for, and the depth query whole price levels, best first, at most the number asked for, each with the sum of its quantities. The price of an order is the upper half of its key. Queue queries count positions from the head of the queue, wrap around at its capacity, and return exactly the fills among the events they are asked for.',
 ['inputs', 'histories'], 'every book, queue, key, depth and limit',
 'There are no tests for the client but one that needs a running validator.',
 ['js/src/slab.ts', 'js/src/event_queue.ts', 'js/src/utils.ts'], [('getNodeByKey, items, getMinMaxNodes, getL2DepthJS, getPrice, getPriceFromKey', 'js/src/slab.ts, js/src/utils.ts'), ('peekAt, parseFill', 'js/src/event_queue.ts')]))
a(prop('P36', 'The wasm reader finds best orders and aggregates whole price levels',
 'For the slab layout it reads, the WebAssembly reader returns as best order the leaf reached by always taking the low (or high) child from the root, and nothing for an empty book. A depth query visits the orders in key order and returns the best price levels best first, at most the requested number, each as its price and the sum of the quantities of all resting orders at that price (as long as that sum fits 64 bits): a level is never cut short because it is the last one.',
 ['inputs'], 'every book, capacity and depth',
 'The wasm crate has one smoke test.',
 ['js/wasm/src/critbit.rs', 'js/wasm/src/lib.rs'], [('find_min, find_max, find_l2_depth, get_node', 'js/wasm/src/critbit.rs'), ('exported queries', 'js/wasm/src/lib.rs')]))
a(prop('P37', 'Every instruction terminates',
 'Every loop that an instruction runs makes a bounded quantity smaller on every round, for every book, queue and argument: the remaining match limit in the matching loop, the height of the current node in a walk of the tree, the ids or events still to be visited in a scan. No function of the program calls itself, directly or through others. So every instruction finishes after a number of steps bounded by its arguments and the height of the book.',
 ['histories', 'inputs'], 'all reachable trees, queues, arguments and match limits',
 'The number of rounds depends on tree depth and match limits that tests sample; a loop that fails to progress only for one combination is not met by them.',
 ['state/orderbook.rs', 'state/critbit.rs', 'state/event_queue.rs', 'processor/mass_cancel_orders.rs'], [('matching loop, tree walks, cancel loop, queue iteration', 'state/*.rs, processor/*.rs')]))
a(prop('P38', 'The search tree stays well formed over every history',
 'Every insertion and every removal turns a well-formed book into a well-formed book, so that after any history the tree reachable from the root holds every live order exactly once, prefix lengths grow strictly downwards, every node below an inner node shares its prefix and lies on the side of its branching bit, the order count equals the number of leaves, and live plus free slots account for every slot ever handed out. No other operation writes the links, keys, prefixes or counters of the tree.',
 ['histories'], 'all histories of operations',
 'Random simulation samples a few hundred histories.',
 ['state/critbit.rs'], [('insert_leaf, remove_by_key and the allocators together', 'state/critbit.rs')]))
# ---------------------------------------------------------------- not applicable
a(prop('P39', 'Fixed-point conversion is numerically exact',
 'Fixed-point multiplication and division by a price return the mathematically rounded result for all inputs for which it fits, and report overflow otherwise.',
 ['inputs'], 'all 64-bit operands',
 'Tests use a few prices.',
 ['state/orderbook.rs'], [('fp_math of the bonfida-utils dependency', 'state/orderbook.rs (calls)')]))
a(prop('P40', 'A crossing order keeps matching until something stops it',
 'An order stops matching only when the opposite book is empty, its best price is not crossed by the limit price, the match limit or one of the two caps is used up, what can still be traded is worth nothing in base or quote, or the order is post-only or fails. It is never cut short while the best opposite order could still be filled.',
 ['inputs', 'histories'], 'every pair of books and every order',
 OB + 'stopping early is only visible when several resting orders are crossed.',
 ['state/orderbook.rs'], [('matching loop exits', 'state/orderbook.rs')]))
a(prop('P42', 'Operations answer with errors, never with panics',
 'On the accounts of an existing market (the right tags, room for at least one order and one event, a positive tick size, a well-formed book and queue), and for market creation on accounts that are not empty, no operation panics, whatever its arguments and however full the books and the queue are: no array is indexed out of range, nothing is divided by zero, nothing absent or failed is unwrapped, and no assertion fails. What cannot be done (an order that is not there, a full queue or book, a self trade under abort, a result beyond 64 bits, parameters that do not decode, an unknown code, too few accounts for the operation) is answered by an error or by the defined outcome. The same holds for the library operations of the order book, the slab and the event queue, for handles that the book handed out.',
 ['inputs', 'histories'], 'every instruction, argument, book and queue',
 'A panic needs the one combination of book, queue and arguments that the code did not expect; tests of expected errors do not reach it.',
 ['state/orderbook.rs', 'state/critbit.rs', 'state/event_queue.rs', 'processor.rs', 'processor/new_order.rs', 'processor/cancel_order.rs', 'processor/mass_cancel_orders.rs', 'processor/consume_events.rs', 'processor/close_market.rs', 'processor/create_market.rs'], [('array accesses, unwraps and assertions', 'state/*.rs, processor/*.rs')]))
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in L: f.write(json.dumps(d) + '\n')
    print(len(L))
