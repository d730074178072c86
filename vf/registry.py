"""What decides each property: the units Verus discharges and their trusted base."""
import os, re
from . import libfns as L, gen, small as S, sm, neutral, merge, stream, route, lobby, message, info, mapdoc, discover, rows, export, stats, balance
from .core import Unit, Section, Fn, VERIF


VERUS = "contract-based deductive verification (Verus) of functions extracted from the source on every run; the same contracts executed on the crate search for counterexamples"


class Prop:
    def __init__(self, units, level="proof", base=(), assume=(), note="", theorems=(), technique=VERUS):
        self.technique = technique
        self.units, self.level, self.base, self.assume, self.note, self.theorems = units, level, list(base), list(assume), note, list(theorems)


def trusted(fns):
    for f in fns:
        f.trusted = True
    return fns


def own(fns):
    for f in fns:
        f.trusted = False
    return fns


def unit(name, header, fns=(), quick_vacuity=True, **kw):
    u = Unit(name, header, fns=list(fns), **kw)
    u.quick_vacuity = quick_vacuity
    return u


BA_LIB = [L.VLQ] + L.TAG_FNS + L.SCALARS
BP_LIB = L.BITS3 + L.BITS4
C01_FNS = [f for f in BA_LIB if f is L.VLQ or f.path.endswith("tagged_vlq_int")]


def c01():
    trusted(BA_LIB); own(C01_FNS)
    return [unit("c01", L.LIB + L.BA_LEMMAS, BA_LIB)]


def c02():
    own(BA_LIB); trusted(C01_FNS)
    return [unit("c02", L.LIB + L.BA_LEMMAS, BA_LIB)]


def c03():
    own(L.BITS3)
    return [unit("c03", L.LIB + L.BIT_LEMMAS, L.BITS3)]


def c04():
    trusted(L.BITS3); own(L.BITS4)
    return [unit("c04", L.LIB + L.BIT_LEMMAS, BP_LIB)]


def c05():
    trusted(BA_LIB)
    return [unit("c05", L.LIB + L.BA_LEMMAS + L.EXTRA, sections=[Section(fns=BA_LIB), gen.ba_section()], quick_vacuity=False)]


def c06():
    trusted(BP_LIB)
    a, b = gen.bp_sections()
    return [unit("c06", L.LIB + L.BIT_LEMMAS + L.BIT_BOUNDS + L.EXTRA, sections=[Section(fns=BP_LIB), a, b], quick_vacuity=False)]


def c12():
    return [unit("c12", L.LIB + S.C12_SPEC, S.C12)]


def c07():
    h, secs = stream.c07()
    return [unit("c07", h, sections=secs)]


def c08():
    h, secs = stream.c08()
    return [unit("c08", h, sections=secs)]


def c09():
    h, secs = route.c09()
    return [unit("c09", h, sections=secs)]


def c10():
    h, secs = neutral.c10()
    return [unit("c10", h, sections=secs)]


def c21():
    h, secs = lobby.c21()
    return [unit("c21", h, sections=secs)]


def merging(pid):
    def f():
        h, secs = merge.units(pid)
        us = [unit(pid.lower(), h, sections=secs)]
        if pid == "C17":
            h, secs = merge.start()
            us.append(unit("c17_start", h, sections=secs))
        return us
    return f


def c28():
    h, secs = rows.units()
    us = [unit("c28", h, sections=secs)]
    h, secs = rows.users()
    return us + [unit("c28_users", h, sections=secs)]


def c11():
    h, secs = neutral.c11()
    return [unit("c11", h, sections=secs)]


def c26():
    h, secs = message.triplet()
    us = [unit("c26_record", h, sections=secs)]
    h, secs = message.read()
    us.append(unit("c26_read", h, sections=secs))
    h, secs = message.tr()
    return us + [unit("c26", h, sections=secs)]


def c27():
    h, secs = info.details()
    us = [unit("c27_details", h, sections=secs)]
    h, secs = info.lobby()
    return us + [unit("c27", h, sections=secs)]


def c19():
    return [unit("c19", L.LIB, sections=[Section(items=S.C19_ITEMS, spec=S.C19_SPEC, fns=S.C19)])]


def c20():
    return [unit("c20", L.LIB.replace("Map(ExtErr)", "Map(MapError)") + S.NOM_LE + mapdoc.MPQ,
                 sections=[Section(items=S.C20_ITEMS, spec=S.C20_SPEC, fns=S.C20 + mapdoc.FROMS)], item_subst=S.C20_DERIVE)]


def c23():
    h, secs = discover.units()
    return [unit("c23", h, sections=secs)]


def c24():
    h, secs = export.units()
    return [unit("c24", h, sections=secs)]


def c30():
    h, secs = stats.units()
    return [unit("c30", h, sections=secs)]


def c31():
    h, secs = balance.units()
    return [unit("c31", h, sections=secs)]


def c29():
    h, secs = mapdoc.units()
    return [unit("c29", h, sections=secs, item_subst=S.C20_DERIVE)]


def c22():
    return [unit("c22", L.LIB + S.C22_SPEC, S.C22)]


def c13():
    return [unit("c13", sm.HEADER, sections=sm.units("C13")), unit("c13x", L.LIB + S.C12_SPEC, sections=[Section(items=S.C13_ITEMS, spec=S.C13_SPEC, fns=own([S.C13_EXPAND]))])]


def state(pid):
    return lambda: [unit(pid.lower(), sm.HEADER, sections=sm.units(pid))]


NOM = "nom: the contracts of be_u8, be_u32, bytes::take, bytes::tag, bits::take in vf/lib_spec.rs (bits::take only for counts up to 8)"
EXTR = "vx (the extractor): copies function bodies token by token; drops tracing calls and the texts of error messages, writes nom's curried parsers as two-argument calls and for loops as while loops"
TOOL = "Verus, Z3, vstd"
SLICE = "inputs are shorter than 2^59 bytes; usize has 64 bits"
HASH = "std HashMap behaves as a finite map (get, get_mut, insert, remove, iter_mut, values visit every entry once)"
SEQ = "Vec::sort_unstable sorts and permutes, Vec::dedup drops equal neighbours; derived Clone/Default copy values; Vec and String values are equal when their contents are"
FLOAT = "f32 +, *, /, - and int-to-f32 conversions are uninterpreted functions of their operands: the contracts fix which operations are applied, not their rounding"
LOOK = "get_unit_sized_color is some function of name, owner and balance data"
STD2 = "vx's std rules: iterator chains (filter_map/map/filter + collect), retain, values, iter_mut and Option combinators are written out as loops and matches; .into() is the crate's own From impl, whose body is verified; panic!/unreachable! must be unreachable"
INITD = "InitData, Details, LobbySlot, GameDescription are opaque values (no handler reads them)"
STREAM = "vx's stream rules: tail.as_ptr() - data.as_ptr() is the number of bytes before the tail, for a tail that is the end of the data (which the callee's contract must show)"
CHOICE = "a decoder's result is a function of its input: the `use crate::versions` lines that pick the decoder are copied from the source, and each protocol's decoder has its own symbol"
STREAMS = "streams are at most 2^31-1 bytes (the sum of their deltas then fits i64); usize has 64 bits"
UTF8 = "str::from_utf8 and String::from_utf8 are the same partial function of the bytes; Utf8Error and FromUtf8Error never convert to UnsupportedEventType"
TWO = "get_next_event of both streams by the contracts and order lemmas of C07 and C08 (c07_order, c08_order)"
HANDL = "handle_tracker_event and handle_game_event by their C13-C16 contracts: functions of state and event that keep the init data, the user names and the eleven control groups of every user; emit_info_log only logs"
START = "iteration starts from a state its constructors make (offsets within the data, eleven control groups per user: proved in C17)"
ERR = "the conversions from nom errors and TryFromIntError to S2ProtocolError return some error value"

PROPS = {
    "C01": Prop(note="Every obligation of parse_vlq_int and tagged_vlq_int is discharged for all inputs. Trusted: nom's be_u8/tag contracts, the extractor, inputs below 2^59 bytes.", units=c01, base=[NOM, EXTR, TOOL], assume=[SLICE]),
    "C02": Prop(note="All scalar decoders of versioned_decoder.rs are proved against one spec for all inputs, given C01's contract of the integer decoder. Trusted: nom contracts, the extractor.", units=c02, base=[NOM, EXTR, TOOL, ERR, "slice to_vec copies bytes"], assume=[SLICE]),
    "C03": Prop(note="rtake_n_bits, take_n_bits_into_i64, parse_packed_int, parse_bool are proved for every input, offset and width up to 64, including absence of overflow. Trusted: nom's bits::take for up to 8 bits, the extractor.", units=c03, base=[NOM, EXTR, TOOL, ERR], assume=[SLICE]),
    "C04": Prop(note="take_bit_array, byte_align, take_unaligned_byte, take_fourcc, take_null are proved for every input and length, given C03's contracts.", units=c04, base=[NOM, EXTR, TOOL, ERR], assume=[SLICE]),
    "C05": Prop(note="All 164 functions of the byte-aligned decoders are proved against spec functions generated from spec/grammar.json, including order independence (commute_* lemmas), duplicate, unknown and missing fields. Trusted: the grammar table, nom contracts, the extractor.", units=c05, base=[NOM, EXTR, TOOL, ERR, "spec/grammar.json is the protocol's field table (names, tags, kinds, optionality)"], assume=[SLICE]),
    "C06": Prop(note="All 750 functions of both bit-packed protocols are proved against spec functions generated from spec/grammar.json. Trusted: the grammar table, nom contracts, the extractor. The 75689 containers it re-exports are specified as the 87702 layout.", units=c06, base=[NOM, EXTR, TOOL, ERR, "spec/grammar.json is the protocol's field table (names, widths, offsets, order)"], assume=[SLICE]),
    "C07": Prop(note="parse_event_pair, read_versioned_tracker_event and get_next_event are proved for every byte string, iterator state and build: the events still to come are exactly the spec's list, so any sequence of reads yields it. Trusted: the event decoders by C05's contract, translation as a fixed outcome per event (C10), the extractor.", units=c07,
                base=[EXTR, STREAM, TOOL, CHOICE, "ReplayTrackerEEventId::parse and SVarUint32::parse by their contracts (C05)", "an event's translation is a function of the event (C10 says which)"], assume=[STREAMS], theorems=["t_events", "lemma_tail"]),
    "C08": Prop(note="parse_event_triplet (both protocols), read_versioned_game_event and get_next_event are proved for every byte string, iterator state, build and user table: the events still to come are exactly the spec's list. Trusted: the event decoders by C06's contract, translation as a fixed outcome per event (C11), the extractor.", units=c08,
                base=[EXTR, STREAM, TOOL, HASH, CHOICE, "GameEEventId, ReplaySGameUserId and SVarUint32 parse by their contracts (C06)", "an event's translation is a function of the event (C11 says which)"], assume=[STREAMS], theorems=["g_events"]),
    "C09": Prop(note="The five routers, the header reader, InitData's constructors, both protocols' one-pass readers and the first step of both iterators are proved for every archive and every 32-bit base build. Trusted: the archive library, the decoders and translations as functions of their input (C05-C08, C10, C11), the extractor. Known finding: protocol 75689 reuses 87702's lobby containers.", units=c09,
                base=[EXTR, STREAM, TOOL, CHOICE, "nom_mpq's read_mpq_file_sector is a function of archive, name and file", "parse_event_pair and parse_event_triplet by their contracts (C07, C08, C26)", "sha256::digest, read_file and the archive library's parse are functions of what they are given"],
                assume=[STREAMS], theorems=["lobby", "header"]),
    "C10": Prop(note="Every tracker conversion (one per event kind, the statistics record and the dispatcher) is proved equal to the neutral event the spec writes out field by field, for every protocol-specific value. The text that stands in for an undecodable upgrade name is left open. Trusted: UTF-8 decoding as some function of the bytes, the extractor.", units=c10,
                base=[EXTR, STD2, TOOL, SEQ, UTF8], assume=["a signed value too large for the neutral field's width is cast as `as` does"], theorems=["ReplayTrackerEvent::vx_tr"]),
    "C11": Prop(note="Every game conversion of both protocols (events, payload records, identifiers, selection masks and deltas, the two dispatchers) is proved equal to the neutral event the spec writes out field by field, for every protocol-specific value. The text that stands in for an undecodable chat message is left open. Trusted: UTF-8 decoding as some function of the bytes, the extractor.", units=c11,
                base=[EXTR, STD2, TOOL, SEQ, UTF8], assume=["a value too large for the neutral field's width is cast as `as` does"], theorems=["ReplayGameEvent::vx_tr", "lemma_mapped"]),
    "C12": Prop(note="The three tag functions are proved for all i64/u32 inputs; both round trips are lemmas over their contracts.", units=c12,
                base=[EXTR, TOOL], theorems=["c12_split_of_join", "c12_join_of_split"]),
    "C13": Prop(note="The expansion and its application to the registry are proved for every report and every state, including overflow freedom; c13_only_named shows that nothing else changes. Trusted: HashMap as a finite map, f32 operations uninterpreted, the extractor.", units=c13,
                base=[EXTR, STD2, TOOL, HASH, SEQ, FLOAT, INITD], assume=[], theorems=["c13_only_named"]),
    "C14": Prop(note="Every tracker handler and their dispatcher are proved for every event and state; since each contract fixes the whole next state, the registry after any history is determined. Trusted: HashMap as a finite map, the unit size/colour table, f32 conversions, the extractor.", units=state("C14"),
                base=[EXTR, STD2, TOOL, HASH, SEQ, FLOAT, LOOK, INITD, "to_unit_positions_vec and handle_unit_position by their contracts (C13), unit_tag_index by its contract (C12)"],
                assume=["every user has eleven control groups (established by SC2UserState::new, preserved by every handler: both proved)"], theorems=["c14_setup_frame"]),
    "C15": Prop(note="Both group handlers, the mark/unmark frame and the game dispatcher are proved for every event and state, with all eleven groups of every user fixed. Trusted: HashMap as a finite map, sort_unstable/dedup, the extractor.", units=state("C15"),
                base=[EXTR, STD2, TOOL, HASH, SEQ, INITD, "handle_cmd and the target updates leave the users alone (proved in C16)"],
                assume=["every user has eleven control groups (established by SC2UserState::new, preserved by every handler: both proved)"], theorems=["lemma_without", "lemma_deduped"]),
    "C16": Prop(note="mark/unmark, both selection handlers' effect on units, the three command handlers, the order conversions and the dispatcher are proved for every event and state. Trusted: HashMap as a finite map, the ability table look-up (C19), f32 operations uninterpreted, the extractor.", units=state("C16"),
                base=[EXTR, STD2, TOOL, HASH, SEQ, FLOAT, INITD, "get_indexed_ability_command_name is some function of its arguments (C19 says which)", "unit_tag_index by its contract (C12)"],
                assume=["every user has eleven control groups (established by SC2UserState::new, preserved by every handler: both proved)"], theorems=["c16_flipped", "c16_mark_frame", "lemma_applied"]),
    "C17": Prop(note="next(), the look-ahead accessors and handle_transition_to_next_event are proved for every iterator state without filters: the result, the state and what is still pending are those of the spec's merge; c17_merge and c17_yields_all turn that into order and completeness of a whole run. SC2EventIterator::new is proved to start both streams at their first byte, read nothing ahead and keep exactly the unit definitions of the replay's build, so the iterator's invariant is established, not assumed. Trusted: both streams by their C07/C08 contracts, the event handlers by their C13-C16 contracts, the extractor.", units=merging("C17"),
                base=[EXTR, TOOL, TWO, HANDL, "the initial replay state by its C21 contract", "HashMap::into_iter lists each entry once; collecting pairs inserts them in order", "nom_mpq's read_mpq_file_sector is a function of archive, name and file"], assume=[STREAMS, "an event sector holds less than 2^31 bytes"], theorems=["c17_merge", "c17_yields_all", "c17_item_loops"]),
    "C18": Prop(note="Every should_skip, the event counter and next() with any filters are proved for every event, filter and iterator state; c18_selects turns that into what a whole run yields. Trusted: both streams by their C07/C08 contracts, the event handlers by their C13-C16 contracts, String equality by contents, the extractor.", units=merging("C18"),
                base=[EXTR, TOOL, SEQ, TWO, HANDL], assume=[STREAMS, START], theorems=["c18_selects"]),
    "C19": Prop(note="get_indexed_ability_command_name is proved for every table, name and index. Trusted: HashMap::get by its lookups, format! of the four name shapes, the extractor.", units=c19,
                base=[EXTR, TOOL, "HashMap<String, _>::get(&str) returns the value stored under that string", "format!(\"{}.{}\"), format!(\"Train.{}\") etc. concatenate"], theorems=["c19_only_matching"]),
    "C20": Prop(note="MapInfo::parse, T3HeightMap::parse, both from_mpq readers and every derived dimension are proved for all byte strings: exact layout, acceptance condition, no overflow, no panic. Trusted: nom contracts, String::from_utf8_lossy as some function of the bytes, the extractor.", units=c20,
                base=[NOM, EXTR, TOOL, "nom tag, take_while and little-endian i32 contracts in vf/small.py", "derived PartialEq of the coordinate structs is structural", "String::from_utf8_lossy is a function of its bytes", "nom_mpq's read_mpq_file_sector is a function of archive, name and file"], assume=[SLICE], theorems=["c20_heights"]),
    "C23": Prop(note="get_matching_files is proved for every directory tree, file limit and depth limit: the result is exactly the first files of the spec's listing, an error only for something unreadable; no arithmetic underflow, termination by depth. c23_replays and c23_limits are lemmas over the contract. Trusted: is_dir, is_file, extension, read_dir and path as functions of the path, text equality by characters, the extractor.", units=c23,
                base=[EXTR, TOOL, "std::fs: is_dir, is_file, extension, read_dir and DirEntry::path are functions of the path (the tree does not change meanwhile); a directory is listed in one fixed order", "comparing an OsStr with a literal compares characters (vx_text_eq)", "Vec::append and Vec::truncate by vstd's contracts"],
                assume=["tracing output is dropped"], theorems=["c23_replays", "c23_limits"]),
    "C24": Prop(note="The seven handlers and the four writer functions are proved for every set of replays, limits and bounds: which replays are chosen, which batches each file gets, under which columns, and when the export fails. c24_apart, c24_whole, c24_complete and c24_any_order are lemmas over the contracts. Parallel loops are proved as the same loop taken in order; c24_any_order proves that any other order of the replays gives each file the same batches. Trusted: rayon, Mutex, arrow and the file system by the listed contracts, the extractor.", units=c24,
                base=[EXTR, TOOL, "rayon: the closure of par_iter().filter_map(..) is called once per item, collect keeps the items' order, sum adds all; the workers share only the locked writer, so every schedule equals processing the items in some order (the proof takes the order of the list; that the batches are a function of each replay alone is proved)", "std Mutex: one owner at a time, lock() succeeds (no worker panics while it holds the lock)", "arrow: try_into_arrow gives the array of exactly these rows or fails, data_type() is a struct with the row's columns, FileWriter appends a batch per successful write and completes the file on finish; success of create, write and finish are functions of path, columns and batches so far", "get_matching_files (C23), InitData::try_from (C09, C27), SC2EventIterator::new (C17), the collecting functions (C28) and the join (C21) by their own contracts", "PathBuf::join and is_dir are functions of the path"],
                assume=["the output is a directory and at least one replay is chosen (the code panics otherwise)", "the handlers are asked for one of the kinds they implement", "nom_mpq itself may panic on an archive whose tables are cut short; such files are outside the bounded runs"], theorems=["c24_apart", "c24_whole", "c24_complete", "c24_any_order"]),
    "C29": Prop(note="DocumentHeader::parse, set_field_by_name and from_mpq are proved for all byte strings and archives: exact layout, which text goes where, what is left unread, no panic. Trusted: nom contracts, String::from_utf8_lossy as some function of the bytes, text equality by characters, the archive library's sector reading, the extractor.", units=c29,
                base=[NOM, EXTR, TOOL, "nom tag, take_while, little-endian i32 and u16 contracts in vf/small.py and vf/mapdoc.py", "String::from_utf8_lossy is a function of its bytes", "comparing text with a literal compares characters (vx_text_eq)", "nom_mpq's read_mpq_file_sector is a function of archive, name and file"], assume=[SLICE], theorems=["c29_kept"]),
    "C26": Prop(note="parse_event_triplet, the one-pass reader and the three translations of message events are proved for every byte string and archive; c26_whole states what a reading yields. Trusted: the message decoder by C06's contract, the archive library's sector reading, UTF-8 decoding as some function of the bytes, the extractor.", units=c26,
                base=[EXTR, STREAM, STD2, TOOL, "GameEMessageId, ReplaySGameUserId and SVarUint32 parse by their contracts (C06)", "nom_mpq's read_mpq_file_sector is a function of archive, name and file", "str::from_utf8 is a partial function of the bytes; Utf8Error never converts to UnsupportedEventType"],
                assume=[STREAMS], theorems=["c26_whole"]),
    "C27": Prop(note="Every conversion of details and lobby data (records, options, slots, users, enumerations, numbers) is proved equal to the neutral value the spec writes out field by field, for every decoded value; list lengths and order included. Trusted: UTF-8 decoding as some function of the bytes, format!(\"{x:02x}\") as two lower-case hex digits of a byte, chrono's default date, the extractor.", units=c27,
                base=[EXTR, STD2, TOOL, SEQ, "str::from_utf8 and String::from_utf8 are the same partial function of the bytes", "format!(\"{:02x}\") of a byte is two lower-case hexadecimal digits (vx_hex02)", "chrono::NaiveDateTime::default() is one fixed value"], assume=["lists hold at most 2^59 elements"], theorems=["lemma_all"]),
    "C21": Prop(note="The join, the choice by name, Details' constructors, the player names and the initial replay state are proved for every pair of details and lobby data; c21_paired states the pairing. Trusted: reading the file and its details sector (C09) as functions, HashMap as a finite map, the extractor.", units=c21,
                base=[EXTR, STD2, TOOL, HASH, "derived Clone/Default copy values; String and Vec values are equal when their contents are; String == &str compares contents", "reading a file, parsing the archive and read_details (C09) are functions of the file's name and contents", "transform_to_naivetime by its contract (C22)"],
                assume=["a Vec has at most 2^59 elements"], theorems=["c21_paired", "lemma_slot"]),
    "C28": Prop(note="The six row constructors, the six collecting functions, the user and player rows, the named statistics and the two loop-to-seconds conversions are proved for every event, hint, iterator state, lobby and player: each row is the one the spec writes out column by column, and collecting gives exactly the rows of what the iterator yields, in order. Trusted: next() by its C17/C18 contract, f32 arithmetic as uninterpreted operations, str slicing and hexadecimal parsing by std's contracts on ASCII, the extractor.", units=c28,
                base=[EXTR, STD2, TOOL, SEQ, FLOAT, "the iterator's next() by its contract (proved under C17 and C18)", "str::split_at, slicing, push_str, push, pop and chars act on the characters of ASCII strings; u8::from_str_radix(_, 16) of two hexadecimal digits is their value", "InitData, SC2Unit and the events are cloned unchanged"],
                assume=[START, STREAMS, "cache handles consist of hexadecimal digits (C27 makes them from blobs)"], theorems=["lemma_round"]),
    "C30": Prop(note="scan_path, try_read_init_data and from_directory are proved for every directory listing, set of files and balance data: the three totals, and the two top-ten lists against the true number of occurrences. c30_apart and c30_same are lemmas over the contracts. The parallel loop is proved as the same loop taken in order. Trusted: rayon, HashMap, sort_by_key and the other readers by the listed contracts, the extractor.", units=c30,
                base=[EXTR, TOOL, "rayon: the closure of par_iter().filter_map(..) is called once per item and collect keeps the items' order", "std HashMap: new, entry(..).or_insert(..), keys and into_iter act on a finite map; keys and entries come once each, in any order; equal texts are equal String values", "sort_by_key(Reverse(count)) permutes the list and leaves the counts falling", "get_matching_files (C23: at most as many paths as its limit), read_file, the archive library's parse, InitData::new (C09, C27), Details::try_from and get_player_names (C21) and the balance data reader by their own contracts or as functions of what they are given", "PathBuf::from and to_str are functions of the path"],
                assume=["a replay holds at most 2^40 player entries", "nom_mpq itself may panic on an archive whose tables are cut short; such files are outside the bounded runs"], theorems=["c30_apart", "c30_same"]),
    "C31": Prop(note="All four functions are proved for every directory tree, packed archive and map of units: reading fails or gives exactly a fold over the listings, writing succeeds exactly when every place can be written and then puts each unit at its place and nothing anywhere else. c31_read, c31_xml and c31_packed turn the folds into 'every unit, and nothing else'; c31_written and c31_round do the same for writing and for reading back. Trusted: the file system, serde's readers and writers, HashMap and the text functions by the listed contracts, the extractor. How a unit's fields are spelt in JSON and XML (the serde attributes) is outside the verifier's reach and only run.", units=c31,
                base=[EXTR, TOOL, "the directory tree does not change while it is read; read_dir, is_dir, is_file, file_type, file_name, extension, join and parent are functions of the path or entry", "serde_json and serde_xml_rs readers are functions of the bytes or text they are given, the JSON writer of the unit", "std HashMap: new, insert and iteration act on a finite map; entries come once each, in any order; equal texts are equal String values", "File::create empties the file it opens and fails only where a place cannot be written; whether a place can be made, created or written does not depend on the units written before", "u32 parsing, split, trim_end_matches and format are functions of their texts", "include_dir! packs the files of the directory it names"],
                assume=["different units have different places (names without / and of a length the file system takes)", "what is written at ROOT/VERSION/NAME.json is what the listing of ROOT/VERSION shows as NAME.json (the hypothesis of c31_round)"], theorems=["c31_read", "c31_xml", "c31_packed", "c31_written", "c31_round"]),
    "C22": Prop(note="transform_to_naivetime is proved for every pair of i64 inputs: no overflow, and exactly the right second and nanosecond are handed to chrono. Trusted: chrono's from_timestamp/naive_utc.", units=c22,
                base=[EXTR, TOOL, "chrono: DateTime::from_timestamp(s, n) is the calendar time of s seconds and n nanoseconds after 1970, None outside its range", "i64::div_euclid/rem_euclid"]),
}


def trusted_base(pid, units):
    return list(PROPS[pid].base)


def assumptions(pid):
    return list(PROPS[pid].assume)


def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) (.*)", l)
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out
