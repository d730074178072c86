"""Contracts for merged replay iteration: C17 (order, completeness) and C18 (filters)."""
from .core import Fn, Section
from . import libfns as L, sm, stream

ST, FI = sm.ST, "filters.rs"
TYPES = stream.TYPES + [(ST, "SC2EventType"), (stream.TI, "TrackertEventIteratorState"), (stream.GI, "GameEventIteratorState"),
                        (FI, "SC2ReplayFilters"), (ST, "SC2EventIteratorItem"), (ST, "SC2EventIterator")]
PRELUDE = stream.PRELUDE.replace("#[verifier::external_body] pub struct InitData { x: u8 }", "pub struct InitData { pub version: u32, pub rest: InitRest }\n#[verifier::external_body] pub struct InitRest { x: u8 }")
assert "InitRest" in PRELUDE

SPEC = """
verus! {
pub open spec fn at_loop(e: SC2EventType) -> int { match e { SC2EventType::Tracker { tracker_loop, .. } => tracker_loop as int, SC2EventType::Game { game_loop, .. } => game_loop as int } }
pub open spec fn in_order(e: Seq<SC2EventType>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> at_loop(#[trigger] e[i]) <= at_loop(#[trigger] e[j]) }
pub open spec fn all_tracker(e: Seq<SC2EventType>) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is Tracker }
pub open spec fn all_game(e: Seq<SC2EventType>) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is Game }

// ---- the two streams, by the contracts of C07 and C08
pub type Names = Map<i64, String>;
pub open spec fn user_names(m: Map<i64, SC2UserState>) -> Names { m.map_values(|u: SC2UserState| u.player_lobby_details.player_details.name) }
pub uninterp spec fn t_left(x: TrackertEventIteratorState) -> Seq<SC2EventType>;
pub uninterp spec fn g_left(v: u32, x: GameEventIteratorState, n: Names) -> Seq<SC2EventType>;
pub uninterp spec fn t_wf(x: TrackertEventIteratorState) -> bool;
pub uninterp spec fn g_wf(x: GameEventIteratorState) -> bool;
pub axiom fn c07_order(x: TrackertEventIteratorState)
    requires t_wf(x), ensures in_order(t_left(x)), all_tracker(t_left(x));
pub axiom fn c08_order(v: u32, x: GameEventIteratorState, n: Names)
    requires g_wf(x), ensures in_order(g_left(v, x, n)), all_game(g_left(v, x, n));

// ---- the replay state's handlers, by the contracts of C13-C16
pub open spec fn s_wf(s: SC2ReplayState) -> bool { forall|k: i64| #[trigger] s.user_state@.contains_key(k) ==> s.user_state@[k].control_groups@.len() == 11 }
pub open spec fn kept(a: SC2ReplayState, b: SC2ReplayState) -> bool { a.init_data == b.init_data && a.details == b.details && a.balance_units == b.balance_units && user_names(a.user_state@) == user_names(b.user_state@) }
/// A handler's next state, the event as it reports it, and its hint.
pub uninterp spec fn h_tracker(s: SC2ReplayState, l: i64, e: ReplayTrackerEvent) -> (SC2ReplayState, ReplayTrackerEvent, UnitChangeHint);
pub uninterp spec fn h_game(s: SC2ReplayState, l: i64, u: i64, e: ReplayGameEvent) -> (SC2ReplayState, ReplayGameEvent, UnitChangeHint);
/// Applying one event: the next state and what is yielded.  The yielded event has the kind, loop and user of the applied one.
pub open spec fn applied(s: SC2ReplayState, e: SC2EventType) -> (SC2ReplayState, SC2EventIteratorItem) {
    match e {
        SC2EventType::Tracker { tracker_loop, event } => { let r = h_tracker(s, tracker_loop, event);
            (r.0, SC2EventIteratorItem { event_type: SC2EventType::Tracker { tracker_loop, event: r.1 }, change_hint: r.2 }) },
        SC2EventType::Game { game_loop, user_id, player_name, event } => { let r = h_game(s, game_loop, user_id, event);
            (r.0, SC2EventIteratorItem { event_type: SC2EventType::Game { game_loop, user_id, player_name, event: r.1 }, change_hint: r.2 }) },
    }
}

// ---- merging
/// The next of two streams: the tracker event only when its loop is strictly smaller.
pub open spec fn tracker_first(t: Seq<SC2EventType>, g: Seq<SC2EventType>) -> bool { t.len() > 0 && (g.len() == 0 || at_loop(t[0]) < at_loop(g[0])) }
pub open spec fn merged(t: Seq<SC2EventType>, g: Seq<SC2EventType>) -> Seq<SC2EventType>
    decreases t.len() + g.len()
{
    if t.len() + g.len() == 0 { Seq::empty() } else if tracker_first(t, g) { seq![t[0]] + merged(t.skip(1), g) } else { seq![g[0]] + merged(t, g.skip(1)) }
}
pub open spec fn look(x: Option<SC2EventType>) -> Seq<SC2EventType> { match x { Some(e) => seq![e], None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn t_pend(n: Option<SC2EventType>, i: TrackertEventIteratorState) -> Seq<SC2EventType> { look(n) + t_left(i) }
#[verifier::opaque]
pub open spec fn g_pend(n: Option<SC2EventType>, i: GameEventIteratorState, s: SC2ReplayState) -> Seq<SC2EventType> { look(n) + g_left(s.init_data.version, i, user_names(s.user_state@)) }
pub open spec fn t_pending(x: SC2EventIterator) -> Seq<SC2EventType> { t_pend(x.next_tracker_event, x.tracker_iterator_state) }
pub open spec fn g_pending(x: SC2EventIterator) -> Seq<SC2EventType> { g_pend(x.next_game_event, x.game_iterator_state, x.sc2_state) }
/// The events an iterator has still to apply, in order.
pub open spec fn pending(x: SC2EventIterator) -> Seq<SC2EventType> { merged(t_pending(x), g_pending(x)) }
#[verifier::opaque]
pub open spec fn ordered_streams(t: Seq<SC2EventType>, g: Seq<SC2EventType>) -> bool { all_tracker(t) && all_game(g) && in_order(t) && in_order(g) }
pub open spec fn it_wf(x: SC2EventIterator) -> bool {
    t_wf(x.tracker_iterator_state) && g_wf(x.game_iterator_state) && s_wf(x.sc2_state) && ordered_streams(t_pending(x), g_pending(x))
}
/// What reading ahead does to a stream.
pub open spec fn read_one(r: Option<SC2EventType>, a: Seq<SC2EventType>, b: Seq<SC2EventType>) -> bool {
    match r { Some(x) => a == seq![x] + b, None => a == Seq::<SC2EventType>::empty() && b == Seq::<SC2EventType>::empty() }
}
pub open spec fn g_of(x: SC2EventIterator) -> Seq<SC2EventType> { g_left(x.sc2_state.init_data.version, x.game_iterator_state, user_names(x.sc2_state.user_state@)) }
pub open spec fn filled(x0: SC2EventIterator, x1: SC2EventIterator) -> bool {
    &&& x1.sc2_state == x0.sc2_state && x1.filters == x0.filters
    &&& (if x0.next_tracker_event is Some { x1.next_tracker_event == x0.next_tracker_event && x1.tracker_iterator_state == x0.tracker_iterator_state }
         else { t_wf(x1.tracker_iterator_state) && read_one(x1.next_tracker_event, t_left(x0.tracker_iterator_state), t_left(x1.tracker_iterator_state)) })
    &&& (if x0.next_game_event is Some { x1.next_game_event == x0.next_game_event && x1.game_iterator_state == x0.game_iterator_state }
         else { g_wf(x1.game_iterator_state) && read_one(x1.next_game_event, g_of(x0), g_of(x1)) })
}
/// Reading ahead leaves what is pending as it was, and shows its head.
pub proof fn lemma_filled(x0: SC2EventIterator, x1: SC2EventIterator)
    requires it_wf(x0), filled(x0, x1),
    ensures it_wf(x1), t_pending(x1) == t_pending(x0), g_pending(x1) == g_pending(x0), pending(x1) == pending(x0),
        (t_pending(x1).len() > 0) == (x1.next_tracker_event is Some), (g_pending(x1).len() > 0) == (x1.next_game_event is Some),
        x1.next_tracker_event is Some ==> x1.next_tracker_event->0 is Tracker && t_pending(x1)[0] == x1.next_tracker_event->0,
        x1.next_game_event is Some ==> x1.next_game_event->0 is Game && g_pending(x1)[0] == x1.next_game_event->0,
        pending(x1) == merged(t_pending(x1), g_pending(x1)),
{
    reveal(ordered_streams); reveal(t_pend); reveal(g_pend);
    c07_order(x0.tracker_iterator_state); c08_order(x0.sc2_state.init_data.version, x0.game_iterator_state, user_names(x0.sc2_state.user_state@));
    let tl = t_left(x0.tracker_iterator_state); let gl = g_of(x0);
    assert(look(None::<SC2EventType>) + tl =~= tl); assert(look(None::<SC2EventType>) + gl =~= gl);
    assert(t_pending(x1) =~= t_pending(x0)); assert(g_pending(x1) =~= g_pending(x0));
    if x1.next_tracker_event is Some { lemma_look(x1.next_tracker_event->0, t_left(x1.tracker_iterator_state)); assert(t_pending(x1)[0] is Tracker); } else { assert(t_pending(x1) =~= Seq::<SC2EventType>::empty()); }
    if x1.next_game_event is Some { lemma_look(x1.next_game_event->0, g_of(x1)); assert(g_pending(x1)[0] is Game); } else { assert(g_pending(x1) =~= Seq::<SC2EventType>::empty()); }
}
/// The head was taken out of the look-ahead and applied.
pub open spec fn taken(x1: SC2EventIterator, x2: SC2EventIterator, e: SC2EventType) -> bool {
    &&& x2.filters == x1.filters && x2.tracker_iterator_state == x1.tracker_iterator_state && x2.game_iterator_state == x1.game_iterator_state
    &&& s_wf(x2.sc2_state) && kept(x1.sc2_state, x2.sc2_state)
    &&& (if tracker_first(t_pending(x1), g_pending(x1)) { Some(e) == x1.next_tracker_event && x2.next_tracker_event is None && x2.next_game_event == x1.next_game_event }
         else { Some(e) == x1.next_game_event && x2.next_game_event is None && x2.next_tracker_event == x1.next_tracker_event })
}
pub proof fn lemma_taken(x1: SC2EventIterator, x2: SC2EventIterator, e: SC2EventType)
    requires it_wf(x1), taken(x1, x2, e),
    ensures it_wf(x2), pending(x1).len() > 0, pending(x1)[0] == e, pending(x2) == pending(x1).skip(1),
{
    reveal(ordered_streams); reveal(t_pend); reveal(g_pend);
    let tp = t_pending(x1); let gp = g_pending(x1);
    let tl = t_left(x1.tracker_iterator_state); let gl = g_of(x1);
    lemma_look(e, tl); lemma_look(e, gl);
    if tracker_first(tp, gp) { lemma_tail_ok(tp); assert(t_pending(x2) == tp.skip(1)); assert(g_pending(x2) == gp); }
    else { lemma_tail_ok(gp); assert(t_pending(x2) == tp); assert(g_pending(x2) == gp.skip(1)); }
    assert(pending(x1).skip(1) =~= pending(x2));
}
pub proof fn lemma_look(x: SC2EventType, s: Seq<SC2EventType>)
    ensures look(Some(x)) + s == seq![x] + s, (seq![x] + s).skip(1) == s, look(None::<SC2EventType>) + s == s, (seq![x] + s)[0] == x,
{ assert((seq![x] + s).skip(1) =~= s); assert(look(None::<SC2EventType>) + s =~= s); }
pub proof fn lemma_tail_ok(s: Seq<SC2EventType>)
    requires s.len() > 0,
    ensures in_order(s) ==> in_order(s.skip(1)), all_tracker(s) ==> all_tracker(s.skip(1)), all_game(s) ==> all_game(s.skip(1)),
{
    let r = s.skip(1);
    if in_order(s) { assert forall|i: int, j: int| 0 <= i < j < r.len() implies at_loop(#[trigger] r[i]) <= at_loop(#[trigger] r[j]) by { assert(r[i] == s[i + 1]); assert(r[j] == s[j + 1]); } }
    if all_tracker(s) { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Tracker by { assert(r[i] == s[i + 1]); } }
    if all_game(s) { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) is Game by { assert(r[i] == s[i + 1]); } }
}

// ---- filters
pub open spec fn other_player(f: SC2ReplayFilters, p: u8) -> bool { f.player_id matches Some(x) && x != p }
pub open spec fn other_name(f: SC2ReplayFilters, n: String) -> bool { f.unit_name matches Some(x) && x@ != n@ }
/// Which tracker events the player, name and statistics filters leave out.
pub open spec fn t_skips(e: ReplayTrackerEvent, f: SC2ReplayFilters) -> bool {
    match e {
        ReplayTrackerEvent::PlayerStats(x) => other_player(f, x.player_id) || !f.include_stats,
        ReplayTrackerEvent::UnitBorn(x) => other_player(f, x.control_player_id) || other_name(f, x.unit_type_name),
        ReplayTrackerEvent::UnitInit(x) => other_player(f, x.control_player_id) || other_name(f, x.unit_type_name),
        ReplayTrackerEvent::UnitTypeChange(x) => other_name(f, x.unit_type_name),
        ReplayTrackerEvent::UnitDied(x) => f.player_id is Some && x.killer_player_id != f.player_id,
        ReplayTrackerEvent::UnitOwnerChange(x) => other_player(f, x.control_player_id),
        ReplayTrackerEvent::Upgrade(x) => other_player(f, x.player_id),
        ReplayTrackerEvent::PlayerSetup(x) => other_player(f, x.player_id),
        ReplayTrackerEvent::UnitDone(_) => false,
        ReplayTrackerEvent::UnitPosition(_) => false,
    }
}
pub open spec fn e_skips(e: SC2EventType, f: SC2ReplayFilters) -> bool {
    match e { SC2EventType::Tracker { event, .. } => t_skips(event, f), SC2EventType::Game { user_id, .. } => other_player(f, user_id as u8) }
}
/// Whether a filter leaves an event out: outside the loop range, or not what was asked for.
pub open spec fn skips(e: SC2EventType, f: SC2ReplayFilters) -> bool {
    (f.min_loop matches Some(m) && at_loop(e) < m) || (f.max_loop matches Some(m) && at_loop(e) > m) || e_skips(e, f)
}
pub open spec fn left_out(e: SC2EventType, f: Option<SC2ReplayFilters>) -> bool { f matches Some(x) && skips(e, x) }
pub open spec fn exhausted(f: Option<SC2ReplayFilters>) -> bool { f matches Some(x) && x.max_events == Some(0usize) }
pub open spec fn counted(f: SC2ReplayFilters) -> SC2ReplayFilters { match f.max_events { Some(n) => if n > 0 { SC2ReplayFilters { max_events: Some((n - 1) as usize), ..f } } else { f }, None => f } }
pub open spec fn opt_counted(f: Option<SC2ReplayFilters>) -> Option<SC2ReplayFilters> { match f { Some(x) => Some(counted(x)), None => None } }

/// One call of next(): what it yields, how many events it applies, the state and the filters afterwards.
pub struct Step { pub item: Option<SC2EventIteratorItem>, pub used: nat, pub state: SC2ReplayState, pub filters: Option<SC2ReplayFilters> }
pub open spec fn next_of(m: Seq<SC2EventType>, s: SC2ReplayState, f: Option<SC2ReplayFilters>) -> Step
    decreases m.len()
{
    if m.len() == 0 { Step { item: None, used: 0, state: s, filters: f } } else {
        let a = applied(s, m[0]);
        if left_out(a.1.event_type, f) { let r = next_of(m.skip(1), a.0, f); Step { used: r.used + 1, ..r } }
        else if exhausted(f) { Step { item: None, used: 1, state: a.0, filters: f } }
        else { Step { item: Some(a.1), used: 1, state: a.0, filters: opt_counted(f) } }
    }
}
// ---- what repeated calls of next() yield
pub open spec fn yielded(m: Seq<SC2EventType>, s: SC2ReplayState, f: Option<SC2ReplayFilters>) -> Seq<SC2EventIteratorItem>
    decreases m.len()
{
    let r = next_of(m, s, f);
    if r.item is None || r.used == 0 || r.used > m.len() { Seq::empty() } else { seq![r.item->0] + yielded(m.skip(r.used as int), r.state, r.filters) }
}
/// Every pending event, applied in turn.
pub open spec fn all_items(m: Seq<SC2EventType>, s: SC2ReplayState) -> Seq<SC2EventIteratorItem>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { let a = applied(s, m[0]); seq![a.1] + all_items(m.skip(1), a.0) } }
/// The items the filters ask for.
pub open spec fn selected(i: Seq<SC2EventIteratorItem>, f: Option<SC2ReplayFilters>) -> Seq<SC2EventIteratorItem>
    decreases i.len()
{ if i.len() == 0 { Seq::empty() } else if left_out(i[0].event_type, f) { selected(i.skip(1), f) } else { seq![i[0]] + selected(i.skip(1), f) } }
pub open spec fn first(i: Seq<SC2EventIteratorItem>, f: Option<SC2ReplayFilters>) -> Seq<SC2EventIteratorItem> {
    match f { Some(x) => match x.max_events { Some(n) => if n < i.len() { i.take(n as int) } else { i }, None => i }, None => i }
}
pub open spec fn same_but_count(a: Option<SC2ReplayFilters>, b: Option<SC2ReplayFilters>) -> bool {
    match (a, b) { (Some(x), Some(y)) => y == (SC2ReplayFilters { max_events: y.max_events, ..x }), (None, None) => true, _ => false }
}
pub proof fn lemma_same_skips(e: SC2EventType, a: Option<SC2ReplayFilters>, b: Option<SC2ReplayFilters>)
    requires same_but_count(a, b), ensures left_out(e, a) == left_out(e, b),
{}
pub proof fn lemma_same_selected(i: Seq<SC2EventIteratorItem>, a: Option<SC2ReplayFilters>, b: Option<SC2ReplayFilters>)
    requires same_but_count(a, b), ensures selected(i, a) == selected(i, b), decreases i.len(),
{ if i.len() > 0 { lemma_same_skips(i[0].event_type, a, b); lemma_same_selected(i.skip(1), a, b); } }
pub proof fn lemma_next_of(m: Seq<SC2EventType>, s: SC2ReplayState, f: Option<SC2ReplayFilters>)
    ensures ({ let r = next_of(m, s, f); let i = selected(all_items(m, s), f);
        &&& r.used <= m.len() && (r.item is Some ==> r.used > 0)
        &&& same_but_count(f, r.filters)
        &&& (r.item is None ==> (i.len() == 0 || exhausted(f)))
        &&& (r.item is Some ==> !exhausted(f) && i == seq![r.item->0] + selected(all_items(m.skip(r.used as int), r.state), f) && r.filters == opt_counted(f)) }),
    decreases m.len(),
{
    if m.len() > 0 {
        let a = applied(s, m[0]);
        let i = all_items(m, s);
        assert(i.skip(1) =~= all_items(m.skip(1), a.0));
        assert(i[0] == a.1);
        if left_out(a.1.event_type, f) { lemma_next_of(m.skip(1), a.0, f); let r = next_of(m.skip(1), a.0, f); assert(m.skip(1).skip(r.used as int) =~= m.skip(1 + r.used as int)); }
    }
}
/// C18: repeated calls yield the events every filter asks for, in order, at most as many as the maximum allows.
pub proof fn c18_selects(m: Seq<SC2EventType>, s: SC2ReplayState, f: Option<SC2ReplayFilters>)
    ensures yielded(m, s, f) == first(selected(all_items(m, s), f), f),
    decreases m.len(),
{
    lemma_next_of(m, s, f);
    let r = next_of(m, s, f);
    let i = selected(all_items(m, s), f);
    if r.item is None {
        if i.len() > 0 { assert(i.take(0) =~= Seq::empty()); }
        assert(first(i, f) =~= Seq::empty());
    } else {
        let m2 = m.skip(r.used as int);
        c18_selects(m2, r.state, r.filters);
        let rest = selected(all_items(m2, r.state), f);
        lemma_same_selected(all_items(m2, r.state), f, r.filters);
        assert(i.skip(1) =~= rest);
        assert(first(i, f) =~= seq![r.item->0] + first(rest, r.filters)) by {
            match f { Some(x) => match x.max_events { Some(n) => { assert(n > 0); if n < i.len() { assert(i.take(n as int) =~= seq![i[0]] + rest.take(n - 1)); } }, None => {} }, None => {} }
        }
    }
}
/// C17: without filters every pending event is applied and yielded, one call each.
pub proof fn c17_yields_all(m: Seq<SC2EventType>, s: SC2ReplayState)
    ensures yielded(m, s, None) == all_items(m, s), all_items(m, s).len() == m.len(),
    decreases m.len(),
{
    c18_selects(m, s, None);
    lemma_selected_all(all_items(m, s));
    if m.len() > 0 { c17_yields_all(m.skip(1), applied(s, m[0]).0); }
}
pub proof fn lemma_selected_all(i: Seq<SC2EventIteratorItem>)
    ensures selected(i, None) == i, decreases i.len(),
{ if i.len() > 0 { lemma_selected_all(i.skip(1)); assert(i =~= seq![i[0]] + i.skip(1)); } }
/// C17: an item reports the loop of the event it stands for.
pub proof fn c17_item_loops(m: Seq<SC2EventType>, s: SC2ReplayState, k: int)
    requires 0 <= k < m.len(),
    ensures k < all_items(m, s).len(), at_loop(all_items(m, s)[k].event_type) == at_loop(m[k]), (all_items(m, s)[k].event_type is Tracker) == (m[k] is Tracker),
    decreases m.len(),
{ c17_yields_all(m, s); if k > 0 { c17_item_loops(m.skip(1), applied(s, m[0]).0, k - 1); } }
pub open spec fn trackers(m: Seq<SC2EventType>) -> Seq<SC2EventType> decreases m.len() { if m.len() == 0 { m } else if m[0] is Tracker { seq![m[0]] + trackers(m.skip(1)) } else { trackers(m.skip(1)) } }
pub open spec fn games(m: Seq<SC2EventType>) -> Seq<SC2EventType> decreases m.len() { if m.len() == 0 { m } else if m[0] is Game { seq![m[0]] + games(m.skip(1)) } else { games(m.skip(1)) } }
/// C17: the merge holds both streams completely, each in its own order, with loops that never decrease.
pub proof fn c17_merge(t: Seq<SC2EventType>, g: Seq<SC2EventType>)
    requires all_tracker(t), all_game(g), in_order(t), in_order(g),
    ensures trackers(merged(t, g)) == t, games(merged(t, g)) == g, in_order(merged(t, g)), merged(t, g).len() == t.len() + g.len(),
        forall|i: int| 0 <= i < merged(t, g).len() ==> (t.len() > 0 && at_loop(t[0]) <= at_loop(#[trigger] merged(t, g)[i])) || (g.len() > 0 && at_loop(g[0]) <= at_loop(merged(t, g)[i])),
    decreases t.len() + g.len(),
{
    let m = merged(t, g);
    if t.len() + g.len() == 0 { assert(t =~= m); assert(g =~= m); } else {
        let tf = tracker_first(t, g);
        if t.len() > 0 { lemma_tail_ok(t); assert(t =~= seq![t[0]] + t.skip(1)); }
        if g.len() > 0 { lemma_tail_ok(g); assert(g =~= seq![g[0]] + g.skip(1)); }
        let (t2, g2) = if tf { (t.skip(1), g) } else { (t, g.skip(1)) };
        c17_merge(t2, g2);
        let r = merged(t2, g2);
        assert(m.skip(1) =~= r);
        let h = m[0];
        assert forall|i: int| 0 <= i < r.len() implies at_loop(h) <= at_loop(#[trigger] r[i]) by {
            if t2.len() > 0 && at_loop(t2[0]) <= at_loop(r[i]) { if tf { assert(t2[0] == t[1]); } }
            else { if !tf { assert(g2[0] == g[1]); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies at_loop(#[trigger] m[i]) <= at_loop(#[trigger] m[j]) by { assert(m[j] == r[j - 1]); if i > 0 { assert(m[i] == r[i - 1]); } }
        assert forall|i: int| 0 <= i < m.len() implies (t.len() > 0 && at_loop(t[0]) <= at_loop(#[trigger] m[i])) || (g.len() > 0 && at_loop(g[0]) <= at_loop(m[i])) by { if i > 0 { assert(m[i] == r[i - 1]); } }
    }
}
}
"""
NEXT_T = Fn(stream.TI, "TrackertEventIteratorState::get_next_event", std=True, trusted=True, spec="""    requires t_wf(*old(self)),
    ensures t_wf(*final(self)),
        match res { Some(x) => t_left(*old(self)) == seq![x] + t_left(*final(self)), None => t_left(*old(self)) == Seq::<SC2EventType>::empty() && t_left(*final(self)) == Seq::<SC2EventType>::empty() },""")
NEXT_G = Fn(stream.GI, "GameEventIteratorState::get_next_event", std=True, trusted=True, spec="""    requires g_wf(*old(self)),
    ensures g_wf(*final(self)),
        match res { Some(x) => g_left(protocol_version, *old(self), user_names(user_state@)) == seq![x] + g_left(protocol_version, *final(self), user_names(user_state@)),
            None => g_left(protocol_version, *old(self), user_names(user_state@)) == Seq::<SC2EventType>::empty() && g_left(protocol_version, *final(self), user_names(user_state@)) == Seq::<SC2EventType>::empty() },""")
H_T = Fn(sm.TS, "handle_tracker_event", std=True, trusted=True, spec="""    requires s_wf(*old(sc2_state)),
    ensures s_wf(*final(sc2_state)), kept(*old(sc2_state), *final(sc2_state)), h_tracker(*old(sc2_state), tracker_loop, evt) == (*final(sc2_state), res.0, res.1),""")
H_G = Fn(sm.GS, "handle_game_event", std=True, trusted=True, spec="""    requires s_wf(*old(sc2_state)),
    ensures s_wf(*final(sc2_state)), kept(*old(sc2_state), *final(sc2_state)), h_game(*old(sc2_state), game_loop, user_id, evt) == (*final(sc2_state), res.0, res.1),""")
LOG = Fn(ST, "SC2EventIteratorItem::emit_info_log", std=True, trusted=True)
TRANS = Fn(ST, "SC2ReplayState::handle_transition_to_next_event", std=True, spec="""    requires s_wf(*old(self)),
    ensures s_wf(*final(self)), kept(*old(self), *final(self)), applied(*old(self), event) == (*final(self), res),""")
T_LOOP = Fn(ST, "SC2EventIterator::get_tracker_loop", std=True, spec="    ensures res == (match self.next_tracker_event { Some(SC2EventType::Tracker { tracker_loop, .. }) => Some(tracker_loop), _ => None }),")
G_LOOP = Fn(ST, "SC2EventIterator::get_game_loop", std=True, spec="    ensures res == (match self.next_game_event { Some(SC2EventType::Game { game_loop, .. }) => Some(game_loop), _ => None }),")
KINDS = [("unit_done", "UnitDoneEvent", "false"), ("unit_positions", "UnitPositionsEvent", "false"),
         ("unit_type_change", "UnitTypeChangeEvent", "t_skips(ReplayTrackerEvent::UnitTypeChange(*self), *filters)"),
         ("player_stats", "PlayerStatsEvent", "t_skips(ReplayTrackerEvent::PlayerStats(*self), *filters)"),
         ("unit_died", "UnitDiedEvent", "t_skips(ReplayTrackerEvent::UnitDied(*self), *filters)"),
         ("unit_born", "UnitBornEvent", "t_skips(ReplayTrackerEvent::UnitBorn(*self), *filters)"),
         ("player_setup", "PlayerSetupEvent", "t_skips(ReplayTrackerEvent::PlayerSetup(*self), *filters)"),
         ("unit_owner_change", "UnitOwnerChangeEvent", "t_skips(ReplayTrackerEvent::UnitOwnerChange(*self), *filters)"),
         ("player_upgrade", "UpgradeEvent", "t_skips(ReplayTrackerEvent::Upgrade(*self), *filters)"),
         ("unit_init", "UnitInitEvent", "t_skips(ReplayTrackerEvent::UnitInit(*self), *filters)")]
SKIPS = [Fn(f"tracker_events/{f}.rs", f"{t}::should_skip", std=True, spec=f"    ensures res == {e},", pre="broadcast use ax_string;") for f, t, e in KINDS] + [
    Fn("tracker_events/mod.rs", "ReplayTrackerEvent::should_skip", std=True, spec="    ensures res == t_skips(*self, *filters),"),
    Fn("game_events/mod.rs", "ReplayGameEvent::should_skip", std=True, spec="    ensures !res,"),
    Fn(ST, "SC2EventType::should_skip", std=True, spec="    ensures res == e_skips(*self, *filters),"),
    Fn(ST, "SC2EventIteratorItem::shoud_skip_event", std=True, spec="    ensures res == skips(*event, *filters),")]
COUNT = [Fn(FI, "SC2ReplayFilters::decrease_allowed_event_counter", std=True, spec="    ensures *final(self) == counted(*old(self)),"),
         Fn(FI, "SC2ReplayFilters::is_max_event_reached", std=True, spec="    ensures res == (self.max_events == Some(0usize)),")]
NX = "next_of(pending(*old(self)), old(self).sc2_state, old(self).filters)"
POST = f"""    requires it_wf(*old(self)),
    ensures it_wf(*final(self)), res == {NX}.item, final(self).sc2_state == {NX}.state, final(self).filters == {NX}.filters,
        {NX}.used <= pending(*old(self)).len(), pending(*final(self)) == pending(*old(self)).skip({NX}.used as int),"""
STEP = "let ghost x0 = *self;"
NEXT = Fn(ST, "SC2EventIteratorasIterator::next", impl="impl SC2EventIterator", std=True, rettype="Option<SC2EventIteratorItem>", spec=POST,
          pre="let ghost s0 = *self; let ghost mut gone: nat = 0; proof { assert(pending(s0).skip(0) =~= pending(s0)); }",
          inv={0: """        invariant s0 == *old(self), it_wf(*self), self.filters == s0.filters, gone <= pending(s0).len(), pending(*self) == pending(s0).skip(gone as int),
            ({ let a = next_of(pending(s0), s0.sc2_state, s0.filters); let b = next_of(pending(*self), self.sc2_state, self.filters);
               a.item == b.item && a.state == b.state && a.filters == b.filters && a.used == b.used + gone }),
        decreases pending(*self).len(),"""}, ls={0: STEP},
          lets={("next_tracker_event_loop", 0): "let ghost x1 = *self; proof { lemma_filled(x0, x1); if x1.next_tracker_event is None && x1.next_game_event is None { assert(pending(x0).len() == 0); assert(next_of(pending(x0), x0.sc2_state, s0.filters).used == 0); } }",
                ("iterator_item", 0): """proof {
            lemma_taken(x1, *self, event0);
            assert(pending(x1).skip(1) =~= pending(s0).skip(gone as int + 1));
            gone = gone + 1;
            let a = next_of(pending(x0), x0.sc2_state, s0.filters);
            assert(applied(x0.sc2_state, pending(x0)[0]) == (self.sc2_state, iterator_item));
            if left_out(iterator_item.event_type, s0.filters) { let b = next_of(pending(*self), self.sc2_state, s0.filters); assert(a.used == b.used + 1 && a.item == b.item && a.state == b.state && a.filters == b.filters); }
            else if exhausted(s0.filters) { assert(a == (Step { item: None, used: 1, state: self.sc2_state, filters: s0.filters })); }
            else { assert(a == (Step { item: Some(iterator_item), used: 1, state: self.sc2_state, filters: opt_counted(s0.filters) })); }
        }""", ("event", 0): "let ghost event0 = event;"})



WITH = Fn(ST, "SC2EventIterator::with_filters", std=True, spec="    ensures res == (SC2EventIterator { filters: Some(filters), ..self }),")


HANDLERS = [NEXT_T, NEXT_G, H_T, H_G, LOG]
FRAME = [TRANS, T_LOOP, G_LOOP]


def units(pid):
    """C17: the iterator without filters; C18: the filters, and the iterator with any of them."""
    for f in HANDLERS:
        f.trusted = True
    for f in FRAME:
        f.trusted = pid == "C18"
    for f in SKIPS + COUNT:
        f.trusted = pid == "C17"
    NEXT.trusted = False
    NEXT.spec = POST.replace("requires it_wf(*old(self)),", "requires it_wf(*old(self))," + (" old(self).filters is None," if pid == "C17" else ""))
    return L.LIB, [Section(items=TYPES, spec=PRELUDE + SPEC, fns=HANDLERS + FRAME + SKIPS + COUNT + [NEXT] + ([WITH] if pid == "C18" else []))]


# ------------------------------------------------------------------------------- where iteration starts
S_PRE = PRELUDE.replace("pub struct InitData { pub version: u32, pub rest: InitRest }", "pub struct InitData { pub version: u32, pub ext_fs_file_name: String, pub rest: InitRest }")
assert S_PRE != PRELUDE
_k = S_PRE.index("impl<K, V> HashMap<K, V> {")
S_PRE = S_PRE[:_k] + """impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
""" + S_PRE[_k + len("impl<K, V> HashMap<K, V> {"):]
S_SPEC = """
verus! {
/// The entries of a hash map, each once, in some order.
#[verifier::external_body]
pub fn vx_entries<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>) ensures entries(m@, r@) { unimplemented!() }
pub open spec fn entries<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// A hash map holding these pairs, later ones replacing earlier ones with the same key.
#[verifier::external_body]
pub fn vx_from_pairs<K, V>(s: Vec<(K, V)>) -> (r: HashMap<K, V>) ensures r@ == of_pairs(s@) { unimplemented!() }
pub open spec fn of_pairs<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { of_pairs(s.drop_last()).insert(s.last().0, s.last().1) } }
/// The value at a position; positions are followed one by one, so no element is read twice.
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub trait VxFrom<A>: Sized { spec fn vx_rel(x: A, r: Self) -> bool; spec fn vx_can(x: A) -> bool; fn vx_from(x: A) -> (r: Self) requires Self::vx_can(x), ensures Self::vx_rel(x, r); }
pub fn vx_into<A, B: VxFrom<A>>(x: A) -> (r: B) requires B::vx_can(x), ensures B::vx_rel(x, r) { B::vx_from(x) }
/// By the contracts of the two From<Vec<u8>> conversions (C07, C08).
impl VxFrom<Vec<u8>> for TrackertEventIteratorState {
    open spec fn vx_can(x: Vec<u8>) -> bool { x@.len() <= 0x7fff_ffff }
    open spec fn vx_rel(x: Vec<u8>, r: Self) -> bool { t_wf(r) && t_begins(r, x@) }
    #[verifier::external_body] fn vx_from(x: Vec<u8>) -> (r: Self) { unimplemented!() }
}
impl VxFrom<Vec<u8>> for GameEventIteratorState {
    open spec fn vx_can(x: Vec<u8>) -> bool { x@.len() <= 0x7fff_ffff }
    open spec fn vx_rel(x: Vec<u8>, r: Self) -> bool { g_wf(r) && g_begins(r, x@) }
    #[verifier::external_body] fn vx_from(x: Vec<u8>) -> (r: Self) { unimplemented!() }
}
pub open spec fn t_begins(r: TrackertEventIteratorState, x: Seq<u8>) -> bool { r.event_data@ == x && r.event_loop == 0 && r.byte_index == 0 }
pub open spec fn g_begins(r: GameEventIteratorState, x: Seq<u8>) -> bool { r.event_data@ == x && r.event_loop == 0 && r.byte_index == 0 && r.bit_index == 0 }

// ---- the replay file
#[verifier::external_body] pub struct MPQ { x: u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PathBuf { #[verifier::external_body] pub fn from(s: String) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() } }
pub uninterp spec fn file_at(name: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn archive(file: Seq<u8>) -> Option<MPQ>;
pub uninterp spec fn sector(m: MPQ, name: Seq<char>, file: Seq<u8>) -> Option<Seq<u8>>;
impl MPQ {
    /// Sectors are shorter than 2^31 bytes.
    #[verifier::external_body]
    pub fn read_mpq_file_sector(&self, name: &str, force_decompress: bool, file: &Vec<u8>) -> (r: Result<((), Vec<u8>), S2ProtocolError>)
        ensures match r { Ok(v) => sector(*self, name@, file@) == Some(v.1@) && v.1@.len() <= 0x7fff_ffff, Err(_) => sector(*self, name@, file@) is None },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn read_file(p: &PathBuf) -> (r: Result<Vec<u8>, S2ProtocolError>) ensures match r { Ok(v) => file_at(p@) == Some(v@), Err(_) => file_at(p@) is None } { unimplemented!() }
pub mod parser {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn parse(file: &Vec<u8>) -> (r: Result<((), MPQ), S2ProtocolError>) ensures match r { Ok((_, m)) => archive(file@) == Some(m), Err(_) => archive(file@) is None } { unimplemented!() }
    }
}
/// The initial replay state of the lobby (C21).
pub uninterp spec fn joinable(i: InitData) -> bool;
impl SC2ReplayState {
    /// By its contract (C21): the lobby's own data, eleven groups per user, and the names of the joined players.
    #[verifier::external_body]
    pub fn try_from(init: &InitData) -> (r: Result<SC2ReplayState, S2ProtocolError>)
        ensures match r { Ok(s) => joinable(*init) && s.init_data == *init && s_wf(s), Err(_) => !joinable(*init) },
    { unimplemented!() }
}
impl SC2EventIterator {
    /// Derived.
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.next_tracker_event is None, r.next_game_event is None, r.filters is None { unimplemented!() }
}
/// The unit definitions of one protocol version, by name.
pub open spec fn own_units(m: Map<(u32, String), VersionedBalanceUnit>, v: u32, r: Map<String, VersionedBalanceUnit>) -> bool {
    &&& forall|n: String| #[trigger] r.contains_key(n) ==> m.contains_key((v, n)) && r[n] == m[(v, n)]
    &&& forall|n: String| m.contains_key((v, n)) ==> #[trigger] r.contains_key(n)
}
pub open spec fn chosen(s: Seq<((u32, String), VersionedBalanceUnit)>, v: u32, n: int) -> Map<String, VersionedBalanceUnit> decreases n {
    if n <= 0 { Map::empty() } else { let r = chosen(s, v, n - 1); if s[n - 1].0.0 == v { r.insert(s[n - 1].0.1, s[n - 1].1) } else { r } }
}
pub proof fn lemma_chosen(m: Map<(u32, String), VersionedBalanceUnit>, s: Seq<((u32, String), VersionedBalanceUnit)>, v: u32, n: int)
    requires entries(m, s), 0 <= n <= s.len(),
    ensures ({ let r = chosen(s, v, n);
        &&& forall|k: String| #[trigger] r.contains_key(k) ==> m.contains_key((v, k)) && r[k] == m[(v, k)]
        &&& forall|i: int| 0 <= i < n && (#[trigger] s[i]).0.0 == v ==> r.contains_key(s[i].0.1) }),
    decreases n,
{ if n > 0 { 
        lemma_chosen(m, s, v, n - 1);
        let e = s[n - 1]; let r0 = chosen(s, v, n - 1); let r = chosen(s, v, n);
        assert(m.contains_key(e.0) && m[e.0] == e.1); assert(e.0 == (e.0.0, e.0.1));
        assert(r == (if e.0.0 == v { r0.insert(e.0.1, e.1) } else { r0 }));
        assert forall|k: String| #[trigger] r.contains_key(k) implies m.contains_key((v, k)) && r[k] == m[(v, k)] by { if k != e.0.1 || e.0.0 != v { assert(r0.contains_key(k)); } }
        assert forall|i: int| 0 <= i < n && (#[trigger] s[i]).0.0 == v implies r.contains_key(s[i].0.1) by { if i < n - 1 { assert(r0.contains_key(s[i].0.1)); } }
    }
}
pub broadcast proof fn lemma_own(m: Map<(u32, String), VersionedBalanceUnit>, s: Seq<((u32, String), VersionedBalanceUnit)>, v: u32, n: int)
    requires #[trigger] entries(m, s), n == s.len(), ensures own_units(m, v, #[trigger] chosen(s, v, n)),
{
    lemma_chosen(m, s, v, s.len() as int);
    assert forall|k: String| m.contains_key((v, k)) implies #[trigger] chosen(s, v, s.len() as int).contains_key(k) by {
        assert(m.contains_key((v, k)));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == (v, k);
        assert(s[i].0.0 == v && s[i].0.1 == k);
    }
}
pub broadcast proof fn lemma_begin(x: SC2EventIterator)
    requires t_wf(x.tracker_iterator_state), g_wf(x.game_iterator_state), s_wf(x.sc2_state), x.next_tracker_event is None, x.next_game_event is None,
    ensures #[trigger] it_wf(x),
{
    reveal(ordered_streams); reveal(t_pend); reveal(g_pend);
    c07_order(x.tracker_iterator_state); c08_order(x.sc2_state.init_data.version, x.game_iterator_state, user_names(x.sc2_state.user_state@));
    assert(t_pending(x) =~= t_left(x.tracker_iterator_state)); assert(g_pending(x) =~= g_of(x));
}
pub open spec fn opened(i: InitData) -> Option<(Seq<u8>, Seq<u8>)> {
    match file_at(i.ext_fs_file_name@) { None => None, Some(f) => match archive(f) { None => None, Some(m) =>
        match (sector(m, "replay.tracker.events"@, f), sector(m, "replay.game.events"@, f)) { (Some(t), Some(g)) => Some((t, g)), _ => None } } }
}
/// Iteration starts at both streams' first bytes, with nothing read ahead, no filters, the lobby's own state and the balance data of its own build.
pub open spec fn begun(i: InitData, units: Map<(u32, String), VersionedBalanceUnit>, r: Result<SC2EventIterator, S2ProtocolError>) -> bool {
    if opened(i) is None || !joinable(i) { r is Err } else {
        r matches Ok(x) && it_wf(x) && x.filters is None && x.next_tracker_event is None && x.next_game_event is None && x.sc2_state.init_data == i
            && t_begins(x.tracker_iterator_state, (opened(i)->0).0) && g_begins(x.game_iterator_state, (opened(i)->0).1)
            && own_units(units, i.version, x.sc2_state.balance_units@)
    }
}
}
"""
NEW = Fn(ST, "SC2EventIterator::new", std=True, rettype="Result<SC2EventIterator, S2ProtocolError>", spec="    ensures begun(*init_data, multi_version_abilities@, res),",
         subst=[(r"\. \. Self :: default \(\)", "..SC2EventIterator::default()")],
         pre="broadcast use {lemma_own, lemma_begin, ax_string}; let ghost units = multi_version_abilities@;",
         inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), entries(units, vx_v0@), of_pairs(vx_out@) == chosen(vx_v0@, init_data.version, vx_i0 as int),
            vx_i0 == vx_n0 ==> own_units(units, init_data.version, of_pairs(vx_out@)),
        decreases vx_n0 - vx_i0,"""},
         le={0: "proof { if vx_r is Some { assert(vx_out@.drop_last() =~= before); } }"},
         ls={0: "broadcast use lemma_own; let ghost before = vx_out@;"})
BAL = Fn(ST, "SC2ReplayState::with_balance_units", std=True, spec="    ensures res == (SC2ReplayState { balance_units: balance_units, ..self }),")


def start():
    return L.LIB, [Section(items=TYPES, spec=S_PRE + SPEC + S_SPEC, fns=[BAL, NEW])]
