#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
R = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    R.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["program/src/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": "program/src/" + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": "program/src/" + b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
HOOK = "--cfg aob_verif: Slab::verif_insert_leaf, EventQueue::verif_push_fill/verif_push_out/verif_gen_order_id make crate-private operations callable for the concrete search; the proof needs none of them"
CB = "state/critbit.rs"; EQ = "state/event_queue.rs"; OB = "state/orderbook.rs"

P("B01", "A book side is an exact map from order id to order",
  "After any sequence of insertions and removals, looking up an order id in a book side returns the order most recently stored under that id (its quantity and its callback information), or nothing if the id was never stored or was removed since. Inserting an id that is present replaces that order's quantity and reports the old one, removing an id that is absent returns nothing and changes nothing, and an operation on one id never alters any other order.",
  ["inputs", "histories"], "all 128-bit order ids and all sequences of insertions, removals and lookups on a book of any capacity",
  "The tree's shape depends on the bit patterns of all keys and on the slots recycled so far; the tests insert and delete a few thousand random keys once and never compare lookups of absent or neighbouring ids.",
  [CB], [("Slab::insert_leaf", CB), ("Slab::remove_by_key", CB), ("Slab::find_by_key", CB), ("InnerNode::walk_down", CB)],
  ["Slab::find_by_key", "Slab::remove_by_key result", "Slab::get_callback_info"],
  [("header.root_node, header.leaf_count", "root of the tree and number of orders", CB), ("leaf_nodes, inner_nodes, callback_infos", "slots of the tree", CB)], HOOK)
P("B02", "Best prices, spread and ordered iteration are exact",
  "The reported minimum and maximum of a book side are the orders with the smallest and the largest id, so the best bid, the best ask and the spread are always the true ones, and an empty side reports none. Iterating a side in ascending or descending order yields every resting order exactly once, in strictly increasing or decreasing id order.",
  ["inputs", "histories"], "every reachable book side of any size, in both directions",
  "Depends on every path of the tree; the tests walk a single random tree and print the spread without checking it.",
  [CB, OB, "utils.rs"], [("Slab::find_min_max", CB), ("SlabIterator::next", CB), ("OrderBookState::find_bbo", OB), ("OrderBookState::get_spread", OB), ("get_spread", "utils.rs")],
  ["Slab::find_min", "Slab::find_max", "Slab::into_iter", "utils::get_spread"])
P("B03", "Book capacity is exact and slots are never lost or shared",
  "A book side created for n orders accepts orders until exactly n are resting, no matter how many were inserted and removed before, and no two resting orders ever share a storage slot. An insertion into a full side is refused and leaves the side unchanged, the number of orders reported equals the number resting, and a side reports being empty exactly when no order rests.",
  ["histories", "configurations"], "all capacities and all histories of insertions and removals",
  "A leaked or doubly freed slot shows only after particular sequences of removals and insertions that exhaust the book; the tests never fill a book after recycling slots.",
  [CB, OB], [("Slab::allocate_leaf / free_leaf", CB), ("Slab::allocate_inner_node / free_inner_node", CB), ("Slab::insert_leaf", CB), ("OrderBookState::is_empty", OB)],
  ["Slab::insert_leaf result", "header.leaf_count"],
  [("leaf and inner free lists, bump indices", "recycled and never used slots", CB)], HOOK)
P("B04", "Order ids are unique, carry price and side, and encode time priority",
  "Every order posted in a market gets an order id never used before in that market, from which its limit price and its side can be read back. Of two orders posted on the same side at the same price, the one posted first has priority over the later one.",
  ["histories", "inputs"], "all prices, both sides, and all sequence numbers below 2^63",
  "Uniqueness and priority relate orders posted arbitrarily far apart; tests post a handful of orders from sequence number zero.",
  [EQ, CB, "state.rs", "processor/create_market.rs"], [("EventQueue::gen_order_id", EQ), ("get_side_from_order_id", "state.rs"), ("LeafNode::price / price_from_key", CB)],
  ["OrderSummary::posted_order_id", "LeafNode::price", "get_side_from_order_id"],
  [("header.seq_num", "next sequence number", EQ)], HOOK)
P("M01", "Price-time priority at the maker's price, never beyond the limit",
  "Every match or self-trade cancellation an incoming order causes involves the opposing order with the highest priority at that moment: the lowest ask for a buyer, the highest bid for a seller, and the oldest order at that price. No resting order is touched whose price is worse for the incoming order than its limit price.",
  ["histories", "inputs"], "all order books, all incoming orders, all steps of the matching loop",
  "Quantifies over every book content and every iteration of an unbounded loop; tests match against books of one or two orders.",
  [OB, CB], [("OrderBookState::new_order matching loop", OB), ("OrderBookState::find_bbo", OB), ("Side::opposite", "state.rs")],
  ["fill and out events of new_order"])
P("M02", "Quantity limits are respected and the order summary is exact",
  "A new order never trades and posts together more base than its base limit nor more quote than its quote limit, whatever it matches and posts. The returned summary reports exactly the base and quote quantities matched (as in the fill events) plus posted (valued at the limit price), exactly the posted base quantity, and an order id exactly when the order was posted.",
  ["inputs", "histories"], "all 64-bit quantities, prices and books",
  "The sums run over an unbounded number of fills with rounding at each of them; tests check totals for one or two fills with round numbers.",
  [OB], [("OrderBookState::new_order accounting", OB), ("new_order::process summary", "processor/new_order.rs")],
  ["OrderSummary", "fill events"])
P("M03", "Quote amounts use the maker's price and round against the taker",
  "For each fill the quote amount is the base amount times the maker's 32.32 fixed point price, rounded up when the incoming order is a buy and rounded down when it is a sell, exactly and for all 64-bit operands. The quote value of a posted remainder is computed the same way at the order's limit price.",
  ["inputs"], "all base sizes and prices for which matching happens",
  "Rounding differs for almost all of the 2^128 operand pairs; tests only use prices and sizes whose product is exact.",
  [OB], [("fp32_mul_ceil / fp32_mul_floor / fp32_div", OB), ("OrderBookState::new_order quote_maker_qty", OB)],
  ["FillEvent::quote_size", "OrderSummary::total_quote_qty"])
P("M04", "Makers are conserved: the events explain every change to the books",
  "Each fill event names a resting order with its own callback information, the incoming order's callback information and side, and a base size that is deducted from exactly that order; each out event names a removed order with its side, its callback information and the quantity it had left. Replaying the events of an order over the books as they were yields exactly the books afterwards, apart from the incoming order itself, which rests with its own callback information and its posted quantity.",
  ["histories", "inputs"], "all books, all incoming orders",
  "The correspondence between books and events must hold for every interleaving of partial fills, removals, recycled slots and evictions; tests compare single events.",
  [OB, CB, EQ], [("OrderBookState::new_order", OB), ("EventQueue::push_back", EQ), ("Slab::remove_by_key", CB)],
  ["event queue content", "books before and after"])
P("M05", "Post-only, post-allowed and match-limit options are obeyed",
  "A post-only order never matches and never cancels a resting order, and is not posted if it would cross the opposing best price. An order that does not allow posting never rests, and no order matches or self-trade-cancels more resting orders than its match limit.",
  ["inputs", "histories"], "all option combinations, match limits and books",
  "The options interact with each other and with every book state; tests only use match_limit 10 and post_only false in most cases.",
  [OB], [("OrderBookState::new_order flags", OB)], ["events", "OrderSummary::posted_order_id"])
P("M06", "Self-trade behaviour is exactly the one requested",
  "With cancel-provide or abort, no fill ever pairs two orders of the same callback identity: cancel-provide removes the user's resting order with its full remaining quantity and goes on, and abort fails the whole order exactly when matching reaches an own order that could be filled. With decrement-take, own orders are matched like any other, and orders of other users are never cancelled by any of the behaviours.",
  ["inputs", "histories"], "all books, identities and behaviours",
  "Depends on where in the priority order the own order sits and what was matched before; tests have one self trade per behaviour at the top of the book.",
  [OB], [("OrderBookState::new_order self trade branch", OB), ("CallbackInfo::as_callback_id", OB)], ["events", "error code"])
P("M07", "The book is never crossed",
  "After every instruction the highest resting bid price is strictly below the lowest resting ask price. No combination of limits, flags, match limits, self-trade handling or evictions leaves a crossed or locked book.",
  ["histories", "inputs"], "all histories of orders and cancellations",
  "An invariant over unbounded histories; no test checks it.",
  [OB], [("OrderBookState::new_order crossed flag", OB)], ["best bid and best ask after each instruction"])
P("M08", "Resting orders keep the minimum size and leave only for a reason",
  "No order rests with less than the market's minimum order size: neither when posted nor as the remainder of a partial fill. A matched order leaves the book exactly when its remainder is below that minimum, and is otherwise left in place with exactly the remainder.",
  ["histories", "inputs"], "all minimum sizes, remainders and books",
  "Needs remainders exactly at and around the minimum in every branch; tests use one minimum size and full fills.",
  [OB], [("OrderBookState::new_order min_base_order_size", OB)], ["resting quantities", "out events"])
P("M09", "A full side evicts only its worst order, only for a better one",
  "When an order is posted to a full side, the least aggressive resting order of that side (the newest among equals) is evicted with an out event exactly if its price is strictly worse than the new order's, and the new order takes its place. Otherwise nothing is evicted and the new order is not posted, though its matches stand; a side that is not full never evicts.",
  ["histories", "configurations"], "all full books and new orders",
  "Needs full books in many shapes; two tests evict once from a book of two orders.",
  [OB], [("OrderBookState::new_order boot branch", OB)], ["out events", "own side of the book"])
P("M10", "Matching is maximal and the remainder is posted",
  "Each fill takes the largest base amount allowed by the resting order and the remaining base and quote limits, and matching stops only when nothing more can be traded within the limit price, limits and match limit. Whatever then remains is posted in full, as far as the remaining quote limit affords at the limit price, if posting is allowed, the match limit is not used up, the book is no longer crossed, the amount reaches the minimum size and the side has room or a worse order to evict.",
  ["inputs", "histories"], "all books and incoming orders",
  "Under-filling is invisible to tests that do not know the maximal fill; they use generous quote limits.",
  [OB], [("OrderBookState::new_order", OB)], ["fill events", "OrderSummary::total_base_qty_posted"])
P("E01", "The event queue is a lossless FIFO with exact capacity",
  "Events are read in exactly the order they were written, with their contents and callback information intact, through any number of wrap-arounds, and consuming n removes exactly the n oldest (or all). A queue created for n events holds exactly n; an instruction whose events do not fit fails and overwrites nothing, and only instructions that produce or consume events change the queue.",
  ["histories", "configurations"], "all capacities, positions of the ring and sequences of pushes and pops",
  "Wrap-around bugs need particular head positions and fill levels; tests push and pop a few events from position zero.",
  [EQ], [("EventQueue::push_back", EQ), ("EventQueue::pop_n", EQ), ("EventQueue::peek_at", EQ), ("QueueIterator", EQ)],
  ["EventQueue::iter", "EventQueue::peek_at", "EventQueue::len"],
  [("header.head, header.count", "ring position and number of waiting events", EQ)], HOOK)
P("L01", "Market lifecycle: create once, close only when empty, dead afterwards",
  "A market can be created only on uninitialised, rent-exempt accounts, with an exactly sized market account and an event queue made for a whole number of at least five events, and with a nonzero minimum order size and tick size; it records its parameters and accounts and starts empty, and cannot be created again. It can be closed only when both book sides and the event queue are empty; closing moves all lamports of its four accounts to the target and marks all four so that every later instruction on them fails.",
  ["inputs", "histories"], "all account contents, parameters and instruction sequences",
  "Each refusal depends on one account's state; the tests create one market and close it when empty.",
  ["processor/create_market.rs", "processor/close_market.rs", "state/market_state.rs", CB, EQ, OB, "state.rs"],
  [("create_market::process", "processor/create_market.rs"), ("close_market::process", "processor/close_market.rs"), ("MarketState::from_buffer", "state/market_state.rs")],
  ["instruction results", "account tags and lamports"])
P("L02", "Only a market's own, genuine accounts are accepted",
  "Every instruction on an existing market fails unless the market account is owned by the program and carries the market tag and the event queue, bids and asks accounts are exactly the ones recorded in the market, each carrying its own tag wherever its content is used. Except for closing, which relies on the recorded addresses, it also fails if any of those accounts is not owned by the program; a market cannot be created with an event queue or a book account the program does not own.",
  ["inputs"], "all combinations of account keys, owners and tags",
  "A missing check shows only with a forged account; tests always pass the right ones.",
  ["processor/new_order.rs", "processor/cancel_order.rs", "processor/mass_cancel_orders.rs", "processor/consume_events.rs", "processor/close_market.rs", "processor/create_market.rs", "utils.rs"],
  [("Accounts::perform_checks", "processor/new_order.rs"), ("check_accounts", "processor/new_order.rs"), ("check_account_key / check_account_owner", "utils.rs")],
  ["instruction results"])
P("X01", "Cancelling removes exactly the named orders",
  "Cancelling an order removes exactly that order and reports its remaining base quantity and its quote value at its price (rounded down); a mass cancel removes exactly the listed orders and reports the totals. If an order is not on the book the instruction fails and nothing changes; no other order and no event is affected.",
  ["inputs", "histories"], "all order ids and lists of ids",
  "The side is derived from the id's bits and the totals from every list; the tests cancel one order.",
  ["processor/cancel_order.rs", "processor/mass_cancel_orders.rs", "state.rs", CB], [("cancel_order::process", "processor/cancel_order.rs"), ("mass_cancel_orders::process", "processor/mass_cancel_orders.rs"), ("get_side_from_order_id", "state.rs")],
  ["OrderSummary", "books"])
P("X02", "Consuming events removes exactly the oldest ones",
  "Consuming n events removes exactly the n oldest waiting events, or all of them if there are fewer; the rest stay readable in the same order. It changes neither the books nor anything else about the market.",
  ["inputs", "histories"], "all counts and queue states", "Tests consume everything at once.",
  ["processor/consume_events.rs", EQ], [("consume_events::process", "processor/consume_events.rs"), ("EventQueue::pop_n", EQ)], ["event queue content"])
P("T01", "Prices respect the tick size and rounding helpers are exact",
  "A new order is refused if its limit price is not a multiple of the market's tick size, or if it allows posting and its price is below one tick; an order meeting both conditions is never refused for its price, so every resting price is a positive multiple of the tick size. Rounding a price to the tick size yields, for bids, the largest multiple not above it and, for asks, the smallest multiple not below it, whenever that multiple fits.",
  ["inputs"], "all prices, tick sizes and both sides",
  "Off-by-one and overflow cases sit at the ends of the 64-bit range; tests round no price there.",
  ["processor/new_order.rs", "utils.rs"], [("new_order::process price check", "processor/new_order.rs"), ("round_price", "utils.rs")], ["error InvalidLimitPrice", "round_price result"])
P("I01", "Instruction builders and dispatch agree",
  "For each of the six instructions the client builder produces data and account metas that the program decodes to the same instruction with the same parameters and the same accounts in the same roles, with every modified account writable and no signature demanded. Running it through the entry point has the same effect as calling the instruction directly.",
  ["inputs"], "all parameters and accounts of all instructions",
  "Tests run some instructions with fixed parameters and never mass_cancel_orders.",
  ["instruction.rs", "processor.rs"], [("instruction builders", "instruction.rs"), ("process_instruction dispatch", "processor.rs")], ["Instruction data and metas", "entry point effect"])
P("Y01", "Account layouts are exact and their parts never overlap",
  "The allocation size computed for n orders or n events gives an account with room for exactly n of them, and the header, slots and callback information occupy disjoint byte ranges at fixed offsets after the account tag. What is written through one view is read back unchanged by any later view of the same bytes, and an account is only opened under its own tag.",
  ["configurations", "inputs"], "all capacities and callback information sizes",
  "Sizes must match for every n and callback type; tests use one capacity and [u8; 32].",
  [CB, EQ, "state/market_state.rs", "state.rs"], [("Slab::compute_allocation_size / from_buffer / initialize", CB), ("EventQueue::compute_allocation_size / from_buffer", EQ), ("MarketState::from_buffer", "state/market_state.rs")],
  ["buffer sizes and raw bytes"])
P("R01", "No instruction panics or fails without cause on valid accounts",
  "On a well-formed market, no new order, cancellation or event consumption with any parameters overflows, indexes out of bounds or otherwise panics, except when the totals of a mass cancel exceed 64 bits. A new order with an acceptable price fails only because the event queue is full or because of a self trade it asked to abort on.",
  ["inputs", "histories"], "all parameters and all well-formed markets",
  "A panic needs extreme operands or book shapes; tests use ordinary ones.",
  [OB, CB, EQ, "processor/new_order.rs"], [("arithmetic and indexing in new_order", OB), ("unwrap calls on the book", OB)], ["absence of panics", "error codes"])
P("C01", "The TypeScript client decodes what the program stores",
  "The TypeScript client in js/src reads orders, prices and events from account data exactly as the program wrote them.",
  ["inputs"], "all account contents", "There are no tests of the client against program data.",
  ["lib.rs"], [("Slab / EventQueue classes", "lib.rs")], ["js/src"])
R[-1]["anchors"]["files"] = ["js/src/slab.ts", "js/src/event_queue.ts", "js/src/market_state.ts"]
R[-1]["anchors"]["mechanism"] = [{"name": "client side deserialisation", "where": "js/src"}]
P("W01", "The WebAssembly reader reports best orders and price levels exactly",
  "On a well-formed book in the slab layout the WebAssembly module reads (a 65 byte header, then slots holding tagged crit-bit nodes), find_min and find_max return the slot of the order with the smallest and the largest key, and none on an empty book. find_l2_depth returns, for each of the first `depth` price levels in the chosen direction, the total quantity of all orders at that price followed by the price, provided each level's total fits 64 bits; an empty book yields an empty list.",
  ["inputs"], "all well-formed books of any size and shape, all callback and slot sizes, all depths, both directions",
  "The crate's only test asserts 2 + 2 = 4; errors show only for particular tree shapes, level sizes and depths.",
  [], [], ["find_min", "find_max", "find_l2_depth"])
R[-1]["anchors"]["files"] = ["js/wasm/src/critbit.rs", "js/wasm/src/lib.rs"]
R[-1]["anchors"]["mechanism"] = [{"name": n, "where": "js/wasm/src/critbit.rs"} for n in ("Slab::get_node / Node::deserialize", "Slab::find_min_max", "Slab::find_l2_depth")]
for r in R:
    assert len(r["title"]) <= 80, r["id"]
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for r in R:
        f.write(json.dumps(r) + "\n")
