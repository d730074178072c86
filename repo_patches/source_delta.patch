From e8d2175eef9452bc5dfe344e55fa93f3cd2bc87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 01/20] fix: report variable-length integers that do not fit
 instead of overflowing

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..074b77a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,6 +157,13 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
         tail = new_tail;
+        if bits > 62 || (bits == 62 && new_v_int_value & 0x7e != 0) {
+            // The magnitude does not fit in 63 bits.
+            return Err(nom::Err::Error(nom::error::Error::new(
+                tail,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
         v_int_value = new_v_int_value;
         bits += 7;
-- 
2.43.0


From ae4dc49a38892cbb0fe529e55ec785173c437101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 02/20] fix: biased 64 bit integers no longer overflow

---
 src/bit_packed_decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..0e21337 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,7 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From a16504e3966c26ea1b88126e55b06fe9721a3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/20] fix: events naming a control group that does not exist
 no longer panic

---
 src/game_events/state.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..57f8b25 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -303,7 +303,9 @@ pub fn handle_selection_delta(
         };
         updated_units.append(&mut marked_units);
     }
-    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
+    if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id)
+        && selection_delta.m_control_group_id as usize <= ACTIVE_UNITS_GROUP_IDX
+    {
         state.control_groups[selection_delta.m_control_group_id as usize] =
             selection_delta.m_delta.m_add_unit_tags.clone();
     }
@@ -324,6 +326,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        // There is no such group, nothing changes.
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::Selection(vec![]),
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From af4f8be02328f80ba40155a4f306f8553d5b1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 04/20] fix: stealing a selection also takes it out of control
 group 9

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 57f8b25..1005d29 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -349,7 +349,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -380,7 +380,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From 0f3a1c852d78753b4b975cc478a1d9b7820ffb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 05/20] fix: find the target unit of a command by its full tag

---
 src/game_events/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 1005d29..c0bee5a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,11 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state
+            .units
+            .get(&tu.m_tag)
+            .or_else(|| sc2_state.units.get(&unit_tag_index(tu.m_tag.into())))
+            .cloned()
     } else {
         None
     };
-- 
2.43.0


From 251edd617a2d02b5f1f5ee3d622bbce10a4332a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 06/20] fix: take dead units out of control groups, which hold
 full unit tags

---
 src/tracker_events/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..88e5635 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,8 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(x as i64) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From e21014d04b64b34ea4517df6833656af1ad64c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 07/20] fix: expanding a position report with large values no
 longer overflows

---
 src/tracker_events/unit_positions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..f8b8e64 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,9 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].saturating_mul(4);
+            let y = relative_unit_pos[2].saturating_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From 1b7d1457cf1cb5958d10828e9699189cbce82d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 08/20] fix: merge events by their exact loops instead of
 rounding through f32

---
 src/state/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..d5fb6b0 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -693,9 +693,7 @@ impl Iterator for SC2EventIterator {
             let event: SC2EventType = match (next_tracker_event_loop, next_game_event_loop) {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
-                    if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
-                    {
+                    if next_tracker_event_loop < next_game_event_loop {
                         self.next_tracker_event.take().unwrap()
                     } else {
                         self.next_game_event.take().unwrap()
-- 
2.43.0


From 0f1cedc784a41e5cd19a59fdfff5120fa59eb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 09/20] fix: max_events yields that many events, not one fewer

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index d5fb6b0..f26db21 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -714,10 +714,10 @@ impl Iterator for SC2EventIterator {
                 if iterator_item.shoud_skip_event(&iterator_item.event_type, filters) {
                     continue;
                 }
-                filters.decrease_allowed_event_counter();
                 if filters.is_max_event_reached() {
                     return None;
                 }
+                filters.decrease_allowed_event_counter();
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From d49a641414c6aa649ff6001ff1fd0d9178743c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 10/20] fix: apply the loop filters to game events too

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index f26db21..f9c13b3 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From 997006fcab561092503bfc49cb22081331392ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 11/20] fix: reject map information whose playable area starts
 outside the map

---
 src/cache_handles/map_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..ebaa82f 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -135,7 +135,7 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
-        if cell_left >= cell_right {
+        if cell_left < 0 || cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
                 cell_left,
@@ -143,7 +143,7 @@ impl MapInfo {
                 cell_right,
             )));
         }
-        if cell_bottom >= cell_top {
+        if cell_bottom < 0 || cell_bottom >= cell_top {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellBottom".to_string(),
                 cell_bottom,
-- 
2.43.0


From 95ff9cbb4d4946c7ff0cfb02216ae9579f319af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 12/20] fix: read the length of an optional bit-packed array
 after its presence bit

---
 src/generator/decoder_type.rs     | 2 +-
 src/versions/protocol87702/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..dbc1106 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,7 +875,7 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..842a112 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
-- 
2.43.0


From 0b60d8733f1b8e4f0d121eafd469e4947a19817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 13/20] fix: read an optional bit-packed integer after its
 presence bit, not from it

---
 src/generator/decoder_type.rs     | 2 ++
 src/versions/protocol87702/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index dbc1106..31f4e8e 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -897,6 +897,8 @@ impl DecoderType {
                     type_impl_def.push_str("(tail, Some(array))");
                 } else {
                     if field_value_parser.contains("input,") {
+                        // The presence bit has been taken from the input already.
+                        let field_value_parser = field_value_parser.replace("input,", "tail,");
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
                     } else {
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 842a112..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From eb53374b45259ee7a9f120fdff0d3f3b660811bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 14/20] fix: end an event stream at its first unreadable record

A record that could not be read or translated left the iterators
readable: the next call skipped over a record whose name is not valid
text, or decoded a malformed one again.
---
 src/game_events/iterator.rs    | 2 ++
 src/tracker_events/iterator.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/game_events/iterator.rs b/src/game_events/iterator.rs
index 2305d59..eebeabe 100644
--- a/src/game_events/iterator.rs
+++ b/src/game_events/iterator.rs
@@ -126,6 +126,8 @@ impl GameEventIteratorState {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
                     tracing::error!("Error reading game event: {:?}", err);
+                    // Whatever is left must neither be re-read nor skipped over.
+                    self.byte_index = self.event_data.len();
                     return None;
                 }
             }
diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 6c79787..543317e 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -86,6 +86,8 @@ impl TrackertEventIteratorState {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
                     tracing::error!("Error reading tracker event: {:?}", err);
+                    // Whatever is left must neither be re-read nor skipped over.
+                    self.byte_index = self.event_data.len();
                     return None;
                 }
             }
-- 
2.43.0


From f4cec1841fa70a4f1bb5fbc48b542c217e3d95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 15/20] fix: take a lobby player's user data by the slot's user
 id

The user data in replay.initData is indexed by user id, not by lobby
slot.  Slots and users only agree when every slot before a player holds
a user; with an AI or an open slot before it, a player was given the
name and clan tag of someone else.
---
 src/details.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..e978107 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -201,6 +201,14 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The user data is indexed by user id, which slots without a user (AI, open) lack.
+                let user_init_data = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| {
+                        init.sync_lobby_state
+                            .user_initial_data
+                            .get(user_id as usize)
+                    });
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -208,15 +216,8 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
-                        .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user_init_data.map_or("".to_string(), |u| u.name.clone()),
+                    user_init_data_clan_tag: user_init_data
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0


From 6288cd83ad5346d632c010b630012a72ab2f6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:41 +0000
Subject: [PATCH 16/20] fix: DocumentHeader::parse returns the input that
 follows the fields it read

The remainder it returned still held every field: the loop's own tail was
shadowed, and the one from before the field list was returned.
---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From eda55997ce691dd6f51cd9ceb27926dfe32fd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 17/20] fix: skip cache handles too short for their fields in
 lobby rows

A handle of fewer than 16 characters made the split of its extension,
delimiter and region panic.
---
 src/details.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index e978107..d77d3c2 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,10 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            // a handle too short to hold the extension, the delimiter and the region is skipped
+            if cache_handle.len() < 16 {
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From 1c4a82aeff72c5223374f48881e18bf230247b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 18/20] fix: treat a replay time beyond Arrow's nanoseconds as
 unset

A time that chrono holds but 64-bit nanoseconds do not made the Arrow
serialisation panic, ending the export of every other replay.
---
 src/details.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index d77d3c2..48e038b 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -285,8 +285,12 @@ impl Details {
 
     /// Sets the metadata related to the filesystem entry and the replay time
     pub fn set_metadata(mut self, ext_fs_id: u64) -> Self {
-        self.ext_datetime = crate::transform_to_naivetime(self.time_utc, self.time_local_offset)
-            .unwrap_or_default();
+        // a time beyond what Arrow holds, in nanoseconds, is treated as one chrono cannot hold
+        self.ext_datetime =
+            match crate::transform_to_naivetime(self.time_utc, self.time_local_offset) {
+                Some(time) if time.and_utc().timestamp_nanos_opt().is_some() => time,
+                _ => chrono::NaiveDateTime::default(),
+            };
         self.ext_fs_id = ext_fs_id;
         self
     }
-- 
2.43.0


From c42ab137a4485f9095fe6e3aefaa35aa565593d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:15 +0000
Subject: [PATCH 19/20] fix: skip replays whose path is not text when reading
 directory statistics

One replay file whose name is not UTF-8 made the reading of the whole directory's
statistics panic; it is now an unreadable replay like any other.
---
 src/dir_stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..cf96686 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -107,7 +107,7 @@ pub fn try_read_init_data(
     let (_, mpq) = parser::parse(&file_contents)?;
     let source_path: String = source
         .to_str()
-        .expect("Failed to convert file name to str")
+        .ok_or("Failed to convert file name to str")?
         .to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
-- 
2.43.0


From fcb8c70dece44504557742fb475b27b7d2fc37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:55 +0000
Subject: [PATCH 20/20] fix: refuse an archive that is no replay with an error
 instead of a panic

An archive without user data, or whose header carries another signature, made every
reader panic, and with it the export or the statistics of a whole directory.
---
 src/protocol_version_decoder.rs | 11 ++++++-----
 src/versions/mod.rs             | 32 ++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..4742302 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -50,9 +50,10 @@ impl ProtocolHeader {
 
 /// Read the protocol header, this can be read with any protocol
 pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
-    let user_data = mpq
-        .user_data
-        .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
-    ReplaySHeader::parse(&user_data.content)
+    match mpq.user_data.as_ref() {
+        Some(user_data) => ReplaySHeader::parse(&user_data.content),
+        None => Err(S2ProtocolError::MissingField(String::from(
+            "user data in MPQ, unable to locate protocol version",
+        ))),
+    }
 }
diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..dafe33f 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,7 +10,19 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
-/// Attempts to read the tracker events, panics under unknown protocol
+/// Whether the header is that of a replay, other archives may be stored with the replay extension.
+fn ensure_replay(
+    header: &protocol87702::byte_aligned::ReplaySHeader,
+) -> Result<(), S2ProtocolError> {
+    if header.m_signature != b"StarCraft II replay\x1b11"[..] {
+        return Err(S2ProtocolError::MissingField(String::from(
+            "StarCraft II replay signature",
+        )));
+    }
+    Ok(())
+}
+
+/// Attempts to read the tracker events, fails if signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
     file_name: &str,
@@ -23,7 +35,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    ensure_replay(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -41,7 +53,7 @@ pub fn read_tracker_events(
     }
 }
 
-/// Attempts to read the game events, panics under unknown protocol
+/// Attempts to read the game events, fails if signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_game_events(
     file_name: &str,
@@ -54,7 +66,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    ensure_replay(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -63,7 +75,7 @@ pub fn read_game_events(
     }
 }
 
-/// Attempts to read the message events, panics under unknown protocol
+/// Attempts to read the message events, fails if signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_message_events(
     file_name: &str,
@@ -76,7 +88,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    ensure_replay(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -85,7 +97,7 @@ pub fn read_message_events(
     }
 }
 
-/// Attempts to read the details, panics under unknown protocol
+/// Attempts to read the details, fails if signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_details(
     file_name: &str,
@@ -98,7 +110,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    ensure_replay(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -107,7 +119,7 @@ pub fn read_details(
     }
 }
 
-/// Attempts to read the initData, panics if signature doesn't match
+/// Attempts to read the initData, fails if signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_init_data(
     file_name: &str,
@@ -120,7 +132,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    ensure_replay(&proto_header)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0

