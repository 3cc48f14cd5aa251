P("P01", "Event id is the SHA-256 of the NIP-01 canonical serialization",
  "For every event, whatever its text, timestamp, kind and tags, the computed id equals SHA-256 of the exact NIP-01 array serialization and nothing but the id changes. The canonical text handed to a caller's buffer is that same serialization, NUL-terminated within the buffer, with its length reported, or the call reports that the buffer is too small.",
  ["inputs", "configurations"], "all valid-UTF-8 contents and tag values, all 64-bit timestamps, all 16-bit kinds, all tag shapes, all buffer sizes, both crypto back ends",
  "Tests hash a few fixed events with short ASCII content; escaping, large timestamps, big tag lists and exact buffer boundaries are unbounded input classes.",
  ["src/event.c", "src/relay_protocol.c"], [("serialize_for_id", "src/event.c"), ("nostr_event_serialize_canonical", "src/relay_protocol.c")], ["nostr_event_compute_id", "nostr_event_serialize_canonical"],
  "Generated events compared with an independent serializer and SHA-256 (OpenSSL). Assumes valid UTF-8 without U+0000 (the API takes C strings).")
P("P02", "Signing yields valid BIP-340 signatures; verification accepts exactly those",
  "Signing any event with any valid secret key sets its public key, id and a signature that verifies under BIP-340, and with an invalid key or failing random source reports an error. Verification accepts an event if and only if its id is the hash of its own fields and its signature is valid for that id and public key, and never modifies the event.",
  ["inputs", "configurations", "fault_sequences"], "all events, keys, and mutations of any signed field, id, key or signature; failure of the system random source; both crypto back ends",
  "Tests verify a handful of events and one or two tampered fields; accepting any forgery needs quantification over mutations of every field, including attacker-recomputed ids.",
  ["src/event.c", "src/utils.c"], [("nostr_event_sign", "src/event.c"), ("nostr_event_verify", "src/event.c")], ["nostr_event_sign", "nostr_event_verify"],
  "Generated events and tampering judged by id recomputation plus libsecp256k1's BIP-340 verifier (trusted).")
P("P03", "Event JSON round-trips exactly and any well-formed spelling is read exactly",
  "Serializing any event to JSON gives a strict JSON object with exactly the seven NIP-01 members, and reading it back yields an identical event whose signature still verifies. Any other JSON spelling of the same event (member order, whitespace, escapes, unknown members, hex case), given as a string or as a buffer with a length, is read as that event.",
  ["inputs"], "all events with representable fields, all equivalent spellings, all buffer lengths and output buffer sizes",
  "Tests parse a few literal objects; escapes, surrogate pairs, unknown members and non-terminated buffers are open-ended.",
  ["src/event.c", "src/relay_protocol.c"], [("nostr_event_to_json / nostr_event_from_json", "src/event.c"), ("nostr_event_parse / nostr_event_serialize", "src/relay_protocol.c")], ["nostr_event_to_json", "nostr_event_from_json", "nostr_event_parse", "nostr_event_serialize"],
  "Independent strict JSON parser and printer as oracle; timestamps within +-2^53 for reading back (JSON numbers).")
P("P04", "Event JSON is read faithfully or rejected",
  "For any text offered as an event, either it is rejected and no event is handed out, or every member present in the text (id, public key, kind, timestamp, tags, content, signature) appears in the event with exactly the value in the text. Values of the wrong type, malformed or mis-sized hex, and numbers the field cannot hold are never silently dropped, truncated or replaced.",
  ["inputs"], "all texts: mistyped, missing, renamed and out-of-range members, malformed hex, mutated and arbitrary text",
  "Tests try a few malformed inputs; the claim is about every malformed text.",
  ["src/event.c", "src/relay_protocol.c"], [("nostr_event_from_json", "src/event.c"), ("nostr_event_parse", "src/relay_protocol.c")], ["nostr_event_from_json", "nostr_event_parse"],
  "Absent and null members are allowed (left at zero); \\u0000 and duplicate members are outside the domain; text only cJSON accepts (not strict JSON) is only checked for memory safety.")
P("P05", "Tag and content edits behave like a list; all accessors agree",
  "After any sequence of adding tags and setting content, successful or refused, and including values that point into the event itself, the event holds exactly the tags added in order and the last content set. Every accessor, iterator, by-name lookup and binary e/p extraction reports that same state, and refused calls change nothing.",
  ["histories", "inputs"], "all sequences of tag and content operations, including storage growth and aliasing arguments, on fresh and parsed events",
  "Tests add a few short tags; storage growth boundaries, relocation and aliasing depend on the whole history.",
  ["src/event.c", "src/relay_protocol.c", "include/nostr.h"], [("tag arena", "src/event.c"), ("tag iterator and accessors", "src/relay_protocol.c")], ["nostr_event_add_tag", "nostr_event_set_content", "nostr_tag_iterator_next", "nostr_event_get_tag_values"],
  "Model-based histories against a vector-of-vectors model under ASan/UBSan.")
P("P06", "Keys import, export, derive and agree exactly; bad input and bad RNG refused",
  "Hex import accepts exactly 64 hex digits and export reproduces them; a key pair in use always holds a valid secret with its own BIP-340 public key, so refused imports, destroyed pairs and random-source failures never leave a usable inconsistent pair. Generated secrets are always in range, and both sides of a key agreement obtain the same x-coordinate of the shared point.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all strings offered as keys, all histories of key-pair operations, all key pairs, failing or out-of-range random draws, both crypto back ends",
  "Tests import a few good and bad strings and generate a few keys; parity-dependent agreement, partially bad hex and faulty random sources are classes they do not sample.",
  ["src/key.c", "src/utils.c"], [("hex import and key-pair functions", "src/key.c"), ("nostr_hex_decode, secure_wipe", "src/utils.c")], ["nostr_key_from_hex", "nostr_keypair_from_private_hex", "nostr_key_generate", "nostr_key_ecdh", "nostr_random_bytes"],
  "Oracle: libsecp256k1 point arithmetic and an independent hex codec; random source replaced by a scripted one (OpenSSL back end only for the fault cases).")
P("P07", "npub/nsec/note encodings are exact bech32; only valid texts are decoded",
  "Encoding any 32 bytes yields exactly the bech32 text of those bytes under the prefix, or reports that the buffer is too small without exceeding it. Decoding accepts a lower-case text if and only if it is valid bech32 (checksum, alphabet, padding, length, prefix) of exactly 32 bytes, yields those bytes, and never reads or writes out of bounds.",
  ["inputs"], "all 32-byte values, all prefixes, all buffer sizes, all texts",
  "Tests decode a few known strings and obvious garbage; off-by-one lengths with correct checksums, bad padding and long prefixes need generated adversarial strings.",
  ["src/bech32.c"], [("bech32 encode and decode", "src/bech32.c")], ["nostr_key_to_bech32", "nostr_key_from_bech32", "nostr_privkey_from_bech32", "nostr_event_id_from_bech32"],
  "Independent BIP-173 codec as oracle under ASan/UBSan; upper-case texts and public-key prefixes other than npub may be accepted or refused.")
P("P08", "NIP-19 entities and nostr: URIs round-trip and foreign TLV is decoded faithfully",
  "Encoding a profile, event, address or relay entity (bare or as a nostr: URI) yields bech32 TLV holding every field and relay, or an error when it cannot, and decoding it gives the same entity back. Decoding any record sequence skips unknown types and non-websocket relay URLs, refuses truncated records, missing or mis-sized required fields, and texts whose prefix is not the entity's.",
  ["inputs"], "all entities (0 to 16 relays of up to 255 bytes, any identifier, any kind), all buffer sizes, all TLV record sequences and texts",
  "Tests round-trip short entities; maximal relay lists, empty identifiers, foreign record orders and truncations are outside their samples.",
  ["src/nip21.c", "src/bech32.c"], [("TLV builder and parser", "src/nip21.c"), ("nostr_uri_parse / nostr_uri_encode", "src/nip21.c")], ["nostr_uri_encode", "nostr_uri_parse", "nostr_nprofile_decode", "nostr_nevent_decode", "nostr_naddr_decode", "nostr_nrelay_decode"],
  "Independent TLV and bech32 codec as oracle; repeated single-valued records and a single stray trailing byte are left unspecified.")
P("P09", "Filters match exactly the events NIP-01 says they match",
  "An event matches a filter if and only if its id and author begin with one of the listed prefixes, its kind is listed, its timestamp lies in the inclusive window, and every tag condition names a value carried by some tag of that letter, whatever the number of tags. A filter list matches if and only if some filter does; a non-empty search text additionally requires the caller's search callback to agree, and matching never changes the event.",
  ["inputs"], "all events with any number of tags, all filters over single letters, all filter lists, both answers of the search callback",
  "Tests match a few events with one or two tags; combinations of conditions, near misses and long tag lists are combinatorial.",
  ["src/relay_filter.c"], [("nostr_filter_matches", "src/relay_filter.c"), ("nostr_filters_match_with_search", "src/relay_filter.c")], ["nostr_filter_matches", "nostr_filters_match", "nostr_filter_matches_with_search", "nostr_filters_match_with_search"],
  "Independent set-based matcher. Zero since/until and empty lists mean no condition; negative since/until are outside the domain.")
P("P10", "Filter JSON is read exactly or refused; clones are independent and equal",
  "A well-formed filter text, however spelled, yields exactly its ids, authors, kinds, time window, limit, search text and single-letter tag conditions (upper and lower case distinct, unknown members ignored), clones are equal and independent, and validation accepts it exactly when every prefix and id is valid lower-case hex. Texts that are not objects or whose members have the wrong type are refused, and freeing releases everything.",
  ["inputs"], "all filter objects, all equivalent spellings, all ill-typed or damaged texts, non-terminated buffers with a length",
  "Tests parse a few literals; ill-typed members, letter case, escapes and long arrays are open-ended classes.",
  ["src/relay_filter.c"], [("nostr_filter_parse", "src/relay_filter.c"), ("nostr_filter_clone", "src/relay_filter.c")], ["nostr_filter_parse", "nostr_filter_clone", "nostr_filter_validate", "nostr_filter_free", "nostr_filter_get_tag_values"],
  "Unspecified: null members, empty arrays, duplicate keys, limit 0 or negative, trailing text; timestamps beyond 2^53 need only keep their order; more than 256 values may be refused.")
P("P11", "Client messages are decoded faithfully or rejected",
  "EVENT, REQ, CLOSE, COUNT and AUTH messages in any JSON spelling, including non-terminated buffers, decode to the right type with exactly their subscription id, filters in order and event. A message of unknown type, with missing or mistyped parts, a subscription id that is empty, over 64 bytes or not printable, or an invalid event is rejected without leaking or keeping anything.",
  ["inputs"], "all client messages of every type, all spellings, all malformations",
  "Tests parse one good and a few bad messages of each type; relays must survive and classify every byte string a client sends.",
  ["src/relay_message.c"], [("nostr_client_msg_parse", "src/relay_message.c")], ["nostr_client_msg_parse", "nostr_client_msg_free", "nostr_client_msg_get_filters", "nostr_client_msg_get_event", "nostr_client_msg_get_subscription_id"],
  "Extra trailing array elements are allowed; REQ without filters may be accepted; oracle is an independent JSON printer and event model.")
P("P12", "Relay messages serialize to exact JSON that always fits or is refused",
  "Every relay message built through the API serializes to strict JSON that is exactly the array NIP-01, NIP-42 and NIP-45 prescribe for its fields (verb, subscription id, event, verdict, message text, count), with an over-long text shortened only at a character boundary. The output is NUL-terminated within the caller's buffer with its length reported, or the call reports that the buffer is too small.",
  ["inputs"], "all messages of every type, all texts, events and counts, all buffer sizes",
  "Tests compare a few literals; escaping, truncation, integer range and exact buffer boundaries need generated inputs.",
  ["src/relay_message.c"], [("nostr_relay_msg_serialize", "src/relay_message.c"), ("message constructors", "src/relay_message.c")], ["nostr_relay_msg_serialize", "nostr_relay_msg_event", "nostr_relay_msg_ok", "nostr_relay_msg_notice"],
  "Strict JSON parser as oracle; text shortening limit is the message struct's field size.")
P("P13", "Kinds are classified as NIP-01 says; replacement order is total and agreed",
  "Every kind number is ephemeral, replaceable, addressable or regular exactly as NIP-01 partitions the range, and all classification calls agree. Comparing versions of a replaceable event is a total order (newer timestamp first, then lower id) that is antisymmetric and transitive, so the surviving event does not depend on delivery order.",
  ["inputs", "schedules"], "all 32-bit kind numbers, all sets of events in any delivery order, including ties and extreme timestamps",
  "Tests check boundary kinds and one pair; order laws quantify over all pairs and triples.",
  ["src/relay_protocol.c"], [("nostr_kind_get_type", "src/relay_protocol.c"), ("nostr_event_compare_replaceable", "src/relay_protocol.c")], ["nostr_kind_get_type", "nostr_event_compare_replaceable", "nostr_kind_is_replaceable"],
  "All pairs of generated small sets are compared with an independent comparator.")
P("P14", "Event validation accepts exactly valid, timely, unexpired events",
  "Full validation succeeds if and only if id and signature are right, the timestamp is at most the allowed distance in the future and no expiration has passed; otherwise it names a fault the event really has, fills the result consistently and leaves the event unchanged. The text validators (ids, prefixes, subscription ids, addresses), hex codecs and tag accessors accept and return exactly what their definitions say.",
  ["inputs", "histories"], "all events and tamperings at all clock readings and tolerances, all candidate texts, all buffer sizes",
  "Tests validate a few events at the real time; boundary instants, extreme tolerances and every kind of tampering need a controlled clock and generation.",
  ["src/relay_protocol.c"], [("nostr_event_validate_full", "src/relay_protocol.c"), ("text validators", "src/relay_protocol.c")], ["nostr_event_validate_full", "nostr_validate_timestamp", "nostr_validate_hex64", "nostr_validate_address", "nostr_hex_to_bytes"],
  "The system clock is virtual; any real fault may be the one reported when there are several; the exact expiration instant is unspecified.")
P("P15", "Deletion requests are parsed exactly and only authorize the author's own events",
  "Parsing a kind 5 event yields exactly its well-formed event ids, addresses and reason in order, and any other kind is refused. An event is deletable by id, or an addressable event by its address, if and only if the request names it and both have the same author, whatever the length or characters of the d-tag.",
  ["inputs"], "all requests (any mix of valid, damaged, foreign references) against all target events",
  "Tests authorize one event and refuse one stranger; near-miss ids and addresses and long d-tags are adversarial inputs.",
  ["src/relay_protocol.c"], [("nostr_deletion_parse", "src/relay_protocol.c"), ("nostr_deletion_authorized", "src/relay_protocol.c")], ["nostr_deletion_parse", "nostr_deletion_authorized", "nostr_deletion_authorized_address", "nostr_deletion_free"],
  "Request and target share small pools of authors and identifiers so near misses are frequent. Non-replaceable kinds named by address and d-less replaceable kinds follow the documented addressable range.")
P("P16", "Expiration follows the first well-formed expiration tag at every instant",
  "The expiration of an event is the number in its first expiration tag, and none if there is no such tag or its value is not a plain positive decimal number. The event is expired at an instant exactly when that instant is past its expiration, for the given time and for the system clock alike.",
  ["inputs", "schedules"], "all tag lists and tag values, all instants",
  "Tests use one past and one future tag; malformed numbers, neighbouring tags and boundary seconds are not sampled.",
  ["src/relay_protocol.c"], [("nostr_event_get_expiration", "src/relay_protocol.c"), ("nostr_event_is_expired", "src/relay_protocol.c")], ["nostr_event_get_expiration", "nostr_event_is_expired", "nostr_event_is_expired_now"],
  "Whether the exact expiration second counts as expired is left unspecified; the clock is virtual.")
P("P17", "Relay information documents serialize to exact JSON",
  "Serializing relay information (or its limitation part) yields strict JSON holding exactly the fields that are set, with their texts, lists and full-range numbers, NUL-terminated within the caller's buffer with its length reported, or reports that the buffer is too small. The supported-NIP list after any history of set and add calls, including calls given a part of the current list, is the list those calls describe.",
  ["inputs", "histories"], "all documents (every optional field, fee, retention rule and list), all buffer sizes, all edit histories",
  "Tests print one or two documents; presence combinations, escaping, integer range and exact buffer boundaries are open-ended.",
  ["src/relay_nip11.c"], [("nostr_relay_info_serialize", "src/relay_nip11.c"), ("nostr_relay_info_set_nips", "src/relay_nip11.c")], ["nostr_relay_info_serialize", "nostr_relay_limitation_serialize", "nostr_relay_info_add_nip", "nostr_relay_info_set_nips"],
  "Strict JSON parser and an independently built document as oracle; numbers beyond 2^53 are compared as decimal text.")
P("P18", "NIP-05 lookups find exactly the named key and its relays, never another's",
  "Parsing accepts exactly well-formed identifiers and lower-cases them; a response yields a key if and only if its names object maps that very name to 64 hex digits, together with exactly the websocket relays listed for that key, whatever other members, nesting, spacing or order the document has. Verification fetches the right URL once and succeeds if and only if the key found is the expected one, and nothing leaks.",
  ["inputs"], "all identifiers, all response documents (with decoys, nested lookalikes, damaged keys), all fetch outcomes",
  "Tests parse a few tidy documents; a hostile server controls the whole document.",
  ["src/nip05.c"], [("nostr_nip05_parse_response", "src/nip05.c"), ("nostr_nip05_verify", "src/nip05.c")], ["nostr_nip05_parse", "nostr_nip05_build_url", "nostr_nip05_parse_response", "nostr_nip05_verify"],
  "Duplicate members, \\u escapes and entries of a relay array that are not strings are unspecified; the fetch callback is scripted.")
P("P19", "Thread references are read and written as NIP-10 says",
  "The root and reply of a note, with their relay hints, are those its marked e tags name, or the first and last e tags when none is marked, whatever other tags surround them, and a note without e tags is not a reply. Adding references appends exactly the marked tags, which are then read back, and reading changes nothing.",
  ["inputs"], "all tag lists in marked and positional style in any order, all buffer sizes",
  "Tests use one event per style; tag order, lookalike tags, missing hints and short buffers combine freely.",
  ["src/nip10.c"], [("root and reply lookup", "src/nip10.c"), ("nostr_event_add_reply_tags", "src/nip10.c")], ["nostr_event_get_root_id", "nostr_event_get_reply_id", "nostr_event_is_reply", "nostr_event_add_reply_tags", "nostr_event_add_mention_tag"],
  "Which end is the fallback when only some tags are marked is unspecified.")
P("P20", "Proof of work counts, checks and mines exact difficulty, touching only the nonce",
  "The difficulty of an id is its number of leading zero bits, and an event passes a minimum if and only if it carries a nonce tag, its id has that many zero bits and it meets its own committed target. Mining (with one or several threads) either gives up (after its limit, or when a thread cannot be started) or leaves an event whose id is its true hash with at least the target difficulty, and updating the nonce changes no other tag or field.",
  ["inputs", "histories"], "all ids, targets and commitments, all histories of tag and nonce updates, small mining targets",
  "Tests check a handful of ids and mine once; bit boundaries, huge commitments and edit histories are outside their samples.",
  ["src/nip13.c"], [("nostr_nip13_calculate_difficulty", "src/nip13.c"), ("nostr_nip13_mine_event", "src/nip13.c")], ["nostr_nip13_calculate_difficulty", "nostr_nip13_verify_pow", "nostr_nip13_add_nonce_tag", "nostr_nip13_mine_event", "nostr_nip13_mine_event_threaded"],
  "Values beyond the third of an existing nonce tag and whether verification recomputes the id are unspecified; targets up to 9 bits are mined.")
P("P21", "Reposts and quotes carry and yield exactly the references they name",
  "A created repost has exactly the kind, tags and content its arguments prescribe (or is refused for malformed ids) and parses back to them, and parsing a foreign repost yields the last e tag with that tag's hint, the author and kind it names. Extracting quotes appends one q tag per valid note, nevent or naddr URI in the content, in order, with its relay and author, and nothing else.",
  ["inputs"], "all repost arguments, all foreign reposts, all contents mixing valid, damaged and unrelated references",
  "Tests create one repost and one quote; damaged references, adjacent URIs and repeated tags are not sampled.",
  ["src/nip18.c"], [("nostr_repost_create", "src/nip18.c"), ("nostr_quote_tags_from_content", "src/nip18.c")], ["nostr_repost_create", "nostr_repost_parse", "nostr_quote_tags_from_content"],
  "Independent bech32/TLV builder as oracle; a k tag on kind 6 is unspecified.")
P("P22", "Reactions carry and yield exactly the event they react to",
  "A created reaction has exactly the content, e, p and k tags its arguments prescribe (or is refused for malformed ids) and parses back to them; a foreign reaction refers to its last e and p tags. Like and dislike are exactly '+' or empty, and '-', and only kind 7 events are reactions.",
  ["inputs"], "all reaction arguments, all foreign tag lists and contents, all buffer sizes",
  "Tests create one like and one dislike; repeated tags, malformed kinds and short buffers are not sampled.",
  ["src/nip25.c"], [("nostr_reaction_create", "src/nip25.c"), ("nostr_reaction_parse", "src/nip25.c")], ["nostr_reaction_create", "nostr_reaction_parse", "nostr_reaction_is_like", "nostr_reaction_is_dislike"],
  "Kinds above 65535 in a k tag are unspecified.")
P("P23", "Delegations authorize exactly the key, kinds and times that were signed",
  "Creating a delegation signs exactly the NIP-26 string for well-formed conditions and refuses others; the token is a valid Schnorr signature by the delegator. A delegated event verifies if and only if its delegation tag is well formed, the signature covers that author and those conditions, and the event's kind is among the listed kinds and its timestamp inside every bound.",
  ["inputs"], "all condition strings, all keys, all kinds and timestamps near the bounds, all tampering of the tag or event",
  "Tests verify one delegation; a bypass needs a specific malformed condition, a second bound or a boundary instant.",
  ["src/nip26.c"], [("condition parser and check", "src/nip26.c"), ("nostr_event_verify_delegation", "src/nip26.c")], ["nostr_delegation_create", "nostr_delegation_verify", "nostr_delegation_check_conditions", "nostr_event_verify_delegation", "nostr_event_get_delegation"],
  "Independent Schnorr implementation as oracle, OpenSSL and mbedTLS builds; stray '&', negative timestamps, over 100 conditions and empty conditions are unspecified.")
P("P24", "Encrypted keys open only with their password, and damage is always noticed",
  "Encrypting a key under any non-empty password and permitted cost yields an ncryptsec text that an independent NIP-49 implementation and the library both open to that key, with fresh salt and nonce every time. Any text that is damaged, mis-prefixed, of another version, length or cost, or opened with another password is refused and the key is not released; malformed texts are refused before key derivation is run.",
  ["inputs", "fault_sequences"], "all keys, passwords and costs, all damaged texts, all buffer sizes, failures of the random source",
  "Tests open one vector and one round trip, each costing a real scrypt; tampering with every field and out-of-range costs needs thousands of trials.",
  ["src/nip49.c"], [("nostr_ncryptsec_encrypt", "src/nip49.c"), ("nostr_ncryptsec_decrypt", "src/nip49.c")], ["nostr_ncryptsec_encrypt", "nostr_ncryptsec_decrypt", "nostr_ncryptsec_validate"],
  "scrypt is replaced by a cheap hash of the same inputs in most cases (real scrypt and the published vector in the rest); the cipher oracle is OpenSSL ChaCha20-Poly1305 under an own HChaCha20. Unicode normalization of passwords is the caller's.")
P("P25", "Lists keep exactly their items through edits, events and back",
  "After any history of adding, removing and setting metadata, also from values of the list itself, a list holds exactly the items and metadata that history describes, in order, and malformed ids are refused without effect. Its event has exactly one tag per public item (and the metadata for addressable kinds) and reads back to the same list; a list with private items is not published without a key.",
  ["inputs", "histories"], "all edit histories over all item kinds and texts, all foreign tag lists",
  "Tests build two or three small lists; growth, removal order, aliasing and unusual tags appear only in longer histories.",
  ["src/nip51.c"], [("add_item and remove", "src/nip51.c"), ("nostr_list_to_event and from_event", "src/nip51.c")], ["nostr_list_add_pubkey", "nostr_list_remove", "nostr_list_set_title", "nostr_list_to_event", "nostr_list_from_event"],
  "List model as oracle. Private items need NIP-44, which this build leaves out: only their refusal is decided here.")
P("P26", "Zap receipts are accepted only for their own request, server and amount",
  "A zap request carries every relay, the amount, lnurl and recipient given; a receipt yields its invoice, preimage, request and the exact amount of the invoice prefix (0 if it names none), and nothing for parts it lacks. Verification succeeds only if the receipt is validly signed by the given server, embeds that very request by its contents, and the amounts agree; an lnurl is valid exactly if it is bech32 with that prefix and a right checksum.",
  ["inputs"], "all requests and relay lists, all receipts with any mix of tags, all invoice amounts and multipliers, all tampering",
  "Tests use one invoice and one receipt; forged embedded requests, amount-less invoices and repeated tags are adversarial.",
  ["src/zap.c"], [("nostr_zap_parse_receipt", "src/zap.c"), ("nostr_zap_verify", "src/zap.c")], ["nostr_zap_create_request", "nostr_zap_parse_receipt", "nostr_zap_verify", "nostr_zap_validate_lnurl"],
  "Invoices are built from their amount. Amounts beyond 21 million BTC or not a whole millisatoshi, repeated tags, and verification against invoices without an amount are unspecified.")
P("P27", "Relay lists keep exactly their distinct valid relays and their roles",
  "A relay list accepts exactly well-formed websocket URLs not yet listed, up to its capacity and with at least one role, and keeps them in order; the read and write selections are exactly the relays with that role. Its event has one r tag per relay with the right marker and reads back to the same list, and from a foreign event exactly the well-formed, first-seen relays are taken.",
  ["inputs", "histories"], "all histories of additions up to and beyond capacity, all foreign events",
  "Tests add a few relays; capacity growth, duplicates, odd markers and malformed URLs combine freely.",
  ["src/nip65.c"], [("nostr_relay_list_add", "src/nip65.c"), ("nostr_relay_list_from_event", "src/nip65.c")], ["nostr_relay_list_add", "nostr_relay_list_get_read_relays", "nostr_relay_list_to_event", "nostr_relay_list_from_event"],
  "Unknown markers count as both roles, as the code documents; list model as oracle.")
P("P28", "Key derivation follows BIP-32 exactly on every path",
  "For every seed of 16 to 64 bytes, every parent and index, and every path m/i/j'/... with decimal indexes below 2^31, the derived private key, chain code and public key are those BIP-32 prescribes, also when the result overwrites its input. Every other seed length, invalid parent or malformed path is refused, leaving the master unchanged.",
  ["inputs"], "all seeds, keys near the curve order, all indexes, all well-formed and malformed paths",
  "Tests check published vectors; index overflow, aliasing and malformed components lie outside them.",
  ["src/hd_key.c"], [("nostr_hd_key_derive", "src/hd_key.c"), ("nostr_hd_key_derive_path", "src/hd_key.c")], ["nostr_hd_key_from_seed", "nostr_hd_key_derive", "nostr_hd_key_derive_path", "nostr_hd_key_to_keypair"],
  "Independent derivation with OpenSSL big numbers and HMAC as oracle; empty components and the 'h' suffix follow the code.")
P("P29", "Mnemonics encode their entropy exactly and errors in them are noticed",
  "A generated mnemonic of 12 or 24 words is the BIP-39 encoding of exactly the entropy drawn, and any other count, a failing random source or a short buffer is refused. A text is valid exactly if it is 12 or 24 list words with a right checksum; its seed is the BIP-39 stretch under the NFKD form of the passphrase, and the account key is the NIP-06 derivation from that seed.",
  ["inputs", "fault_sequences"], "all entropy, word sequences and damage, passphrases needing normalization, all accounts, failures of the random source",
  "Tests check one or two vectors; each checksum bit, word boundary and normalization form is a separate case.",
  ["src/hd_key.c"], [("nostr_mnemonic_generate and validate", "src/hd_key.c"), ("nostr_mnemonic_to_seed", "src/hd_key.c")], ["nostr_mnemonic_generate", "nostr_mnemonic_validate", "nostr_mnemonic_to_seed", "nostr_mnemonic_to_keypair"],
  "The random source is scripted; BIP-39 word list embedded in the harness, PBKDF2 of OpenSSL and a table of NFKD pairs as oracle. Extra spaces are unspecified.")
P("P30", "Configuration is exactly what was last accepted, and its limits are obeyed",
  "A configuration is accepted exactly if every value is within its documented range and they agree with each other; defaults and environment variables give exactly the documented values, and an environment value that is not a number in range of its type leaves its setting alone. After any history of initialisations, updates and callback changes, the current configuration is the last one accepted, a callback sees each accepted update exactly once (and may read the configuration), and the limits on tags and content hold exactly. The NIPs, features and version the library reports are those it was built with, and each error code has a text of its own.",
  ["inputs", "histories"], "all configurations around every bound, all environment texts, all histories of initialisation, update and use",
  "Tests check a few out-of-range values; each bound, malformed environment text and order of calls is a separate case.",
  ["src/config.c"], [("nostr_config_validate, update", "src/config.c"), ("environment parsing", "src/config.c")], ["nostr_config_validate", "nostr_config_load_env", "nostr_config_update", "nostr_init_with_config", "nostr_config_get_current"],
  "Histories run in child processes, as initialisation is once per process. The limit on values per tag is enforced nowhere and left unspecified, as are leading spaces and '+' in environment values.")
P("P31", "Text from the network never crashes, hangs, leaks or confuses the library",
  "Whatever bytes are given to the parsers of events, filters, client messages, identifiers, responses, URIs, encoded keys, mnemonics and paths, and to every reader of an event so obtained, each call returns, stays within the memory it was given, and terminates every text it hands out. It frees all it allocated once its result is released, and answers the same when asked again.",
  ["inputs"], "all byte strings, in particular damaged valid ones, deep and repetitive ones, and events with arbitrary tags, at all output sizes",
  "A suite can only contain the malformed inputs someone thought of; a memory error needs a particular one.",
  ["src/event.c", "src/relay_filter.c", "src/relay_message.c", "src/nip05.c", "src/nip21.c", "src/bech32.c", "src/zap.c", "src/nip26.c", "src/nip51.c"], [("nostr_event_from_json", "src/event.c"), ("nostr_client_msg_parse", "src/relay_message.c"), ("TLV decoding", "src/nip21.c"), ("nostr_nip05_parse_response", "src/nip05.c")], ["nostr_event_from_json", "nostr_client_msg_parse", "nostr_filter_parse", "nostr_uri_parse", "nostr_nip05_parse_response"],
  "AddressSanitizer and UndefinedBehaviorSanitizer on exact-size buffers, CPU and wall-clock limits, and an allocation ledger are the oracle; the search is coverage-guided.")
P("P32", "Running out of memory is reported and changes nothing",
  "If any allocation fails during an operation, the operation either reports failure or has exactly the effect it has with enough memory; it never crashes, leaks, or accepts what it would otherwise refuse. A failed single edit of an event, list, relay list or relay description leaves the object as it was.",
  ["fault_sequences", "inputs"], "all operations of the core, all positions of the failing allocation, with one or all later ones failing",
  "No test injects allocation failures; each failing position is its own error path.",
  ["src/event.c", "src/relay_filter.c", "src/relay_message.c", "src/nip05.c", "src/nip18.c", "src/nip21.c", "src/nip51.c", "src/nip65.c", "src/zap.c"], [("arena growth", "src/event.c"), ("array parsing and cloning", "src/relay_filter.c"), ("list edits", "src/nip51.c")], ["nostr_event_add_tag", "nostr_filter_clone", "nostr_client_msg_parse", "nostr_relay_msg_serialize", "nostr_list_add_pubkey"],
  "Every allocation of the operation fails in turn (20 sampled positions if there are more). Relay information documents lose members under failure, a known finding.", "fault injection in generated cases", "fault_enumeration")
P("P33", "The relay client delivers exactly what the relay sent to whom it belongs",
  "While connected, every event message reaches exactly the callback of the current subscription with its id, unchanged, and every other message the current message callback, once each and in order, however it is cut into fragments; anything else the relay sends is ignored and affects no other message. Each successful subscribe, unsubscribe and publish writes exactly one REQ (only with well-formed filters), CLOSE or EVENT message, in order, however slowly the relay reads, unless the connection is lost before; one that fails writes and changes nothing, and a repeated id replaces the earlier subscription.",
  ["histories", "inputs", "fault_sequences"], "all histories of subscriptions, publications, incoming messages and fragmentations, calls from inside callbacks, failures of memory and of writing",
  "No test reaches the receiving side; fragment boundaries, rubbish, replaced ids and failures combine freely.",
  ["src/relay.c"], [("callback_nostr_relay", "src/relay.c"), ("find_json_array_end", "src/relay.c"), ("nostr_subscribe", "src/relay.c")], ["nostr_subscribe", "nostr_relay_unsubscribe", "nostr_publish_event", "nostr_relay_set_message_callback"],
  "Stand-in for libwebsockets drives the library's own service thread. Timestamps beyond 1e15 are unspecified; messages over about 10 MB are delivered whole or not at all; signatures and filters of received events are not checked by the client.")
P("P34", "A relay's state is the truth about its connection, and nothing outlives it",
  "For every history of connecting, failing, being closed, disconnecting and destroying, the state of a relay and the states announced to its callback, in order, are those of its real connection, which leads to exactly the host, port, path and security its URL names (or is refused if the URL is malformed). A lost connection is retried at once only if the last attempt was 5 seconds ago; when not connected every use is refused; no connection, thread or memory is used after its end or left behind.",
  ["histories", "fault_sequences", "inputs"], "all histories of connection events and calls, all URLs, failures of memory, threads and connection attempts at every point",
  "Tests have no server: only argument checks are exercised; each order of failure, close and reconnect is a separate history.",
  ["src/relay.c"], [("nostr_relay_connect", "src/relay.c"), ("nostr_relay_disconnect", "src/relay.c"), ("connection callbacks", "src/relay.c")], ["nostr_relay_create", "nostr_relay_connect", "nostr_relay_disconnect", "nostr_relay_destroy"],
  "Stand-in for libwebsockets that notices use of ended connections and contexts, an allocation ledger and AddressSanitizer. Connecting or disconnecting from inside a callback is refused.")
P("P35", "Concurrent use gives the answers of sequential use, without data races",
  "Functions documented as thread-safe (keys, signing and verifying, parsing and reading of events, filters and lists, encodings, encryption, sealed and wallet messages, proof of work, initialisation, configuration, feature queries), called from any number of threads on objects of their own or on shared objects that nobody changes, return what they return when called alone, and no two threads touch the same memory unsynchronized. Concurrent configuration updates take effect one after the other and no reader or callback sees a mixture; the application may subscribe, unsubscribe, publish, change callbacks and disconnect while the relay's own thread delivers messages or loses the connection.",
  ["schedules", "inputs"], "all interleavings of 2 to 4 threads of generated operations, and of one relay's service thread with its application",
  "A race needs a particular interleaving, and most of them leave no visible trace in a test that passes.",
  ["src/config.c", "src/key.c", "src/nip13.c", "src/relay.c", "src/features.c", "docs/THREAD_SAFETY.md"], [("configuration lock", "src/config.c"), ("random generator lock", "src/key.c"), ("mining threads", "src/nip13.c"), ("queue mutex", "src/relay.c")], ["nostr_config_update", "nostr_config_get_current", "nostr_key_generate", "nostr_nip13_mine_event_threaded", "nostr_subscribe"],
  "ThreadSanitizer on the library's own code, with calls into the crypto libraries announced as the reads and writes they make; comparison with the sequential answers, and a chain of what each update replaced. nostr_init() is called before the threads start; the public state field of a relay is not read by the harness.", "property-based testing of generated concurrent programs under ThreadSanitizer")
P("P36", "NIP-44 encryption follows version 2 exactly and reveals only the padded length",
  "For every two key pairs and every text of 1 to 65535 bytes, the payload is exactly the one NIP-44 version 2 prescribes for the conversation key and the nonce it carries, both parties read back the same bytes, and each encryption uses a fresh nonce from the system. Texts out of bounds, invalid keys, configured limits exceeded, failing randomness or exhausted memory are reported, with nothing handed out.",
  ["inputs", "configurations", "fault_sequences"], "all texts and lengths around each padding step, all keys, failures of the random source and of every allocation, both crypto back ends",
  "Tests encrypt a few short strings and read them with the same code; padding steps, limits and agreement with other implementations are not sampled.",
  ["src/nip44.c"], [("padding and encryption", "src/nip44.c"), ("nostr_nip44_encrypt", "src/nip44.c")], ["nostr_nip44_encrypt", "nostr_nip44_decrypt"],
  "Oracle: NIP-44 written anew over OpenSSL. The noscrypt library the feature needs is not installed; a stand-in with its documented interface (ECDH, HKDF, ChaCha20, HMAC over OpenSSL and libsecp256k1) takes its place and is trusted.")
P("P37", "NIP-44 decryption accepts exactly proper payloads for the right keys",
  "Every payload that another implementation makes under NIP-44 version 2 for the two keys decrypts to exactly its text. Anything else (another version, other keys, any change of nonce, ciphertext, MAC or padding, text that is not base64, wrong sizes) is refused with nothing handed out, leaked or read out of bounds.",
  ["inputs", "fault_sequences"], "all payloads of all sizes, all single and combined alterations, all keys, failures of every allocation",
  "Tests alter one byte of one payload; each field, size boundary and base64 malformation is its own class.",
  ["src/nip44.c"], [("base64 decoding", "src/nip44.c"), ("nostr_nip44_decrypt", "src/nip44.c")], ["nostr_nip44_decrypt"],
  "Payloads come from the independent implementation. Padding bytes other than zero under a right MAC, and which error is reported, are unspecified. noscrypt stand-in as for P36.")
P("P38", "NIP-04 messages open to exactly their text or are refused",
  "Every text is encrypted as base64 AES-256-CBC under the shared x-coordinate with a fresh random IV, and both parties (and other implementations) read the same bytes back. Malformed messages (bad base64, IV or block sizes, wrong padding) are refused with nothing handed out; without AES in the build every call reports so.",
  ["inputs", "fault_sequences", "configurations"], "all texts, keys and alterations, failures of the random source and of every allocation, both crypto back ends",
  "Tests read back one message; malformed base64, IV and padding are open-ended.",
  ["src/nip44.c"], [("nostr_nip04_encrypt", "src/nip44.c"), ("nostr_nip04_decrypt", "src/nip44.c")], ["nostr_nip04_encrypt", "nostr_nip04_decrypt"],
  "Oracle: NIP-04 written anew over OpenSSL. NIP-04 has no authentication: an alteration that leaves proper padding may decrypt to other text. noscrypt stand-in as for P36.")
P("P39", "Gift wraps reach only their recipient, prove their sender, hide everything else",
  "A wrapped message or event, and a NIP-17 message, opens with the recipient's key alone to exactly the message, its true author and time, in a rumor whose id matches and which is unsigned; the seal is validly signed by the author with no tags, the wrap by a fresh one-time key, both dated at random within the last two days. A foreign wrap opens exactly if its layers are proper; a NIP-17 message whose rumor names another author than its seal, or whose seal is not validly signed, is refused.",
  ["inputs", "fault_sequences"], "all messages, recipients, reply and subject tags, all foreign wraps and alterations of each layer, failures of the random source at each draw and of every allocation",
  "Tests wrap one message and read it with the same code; impersonation and leaks are about all alterations.",
  ["src/nip17.c", "src/nip59.c", "src/nip44.c"], [("nostr_nip59_wrap_event / unwrap_event", "src/nip59.c"), ("nostr_nip17_send_dm / unwrap_dm", "src/nip17.c")], ["nostr_nip17_send_dm", "nostr_nip17_unwrap_dm", "nostr_nip59_create_seal", "nostr_nip59_wrap_event", "nostr_nip59_unwrap_event"],
  "Layers are opened and made by the independent implementation of NIP-44. The general NIP-59 reading of rumors naming another author (the seal's author is then what is reported), and the wrap's own signature when reading, are unspecified.")
P("P40", "Remote signing requests and responses carry exactly what they say",
  "Every NIP-46 request another client makes, its members in any order and spelling, is read as exactly its sender, id, method and parameters; one of another kind, for another key, damaged, incomplete, mistyped or too large for the fields is refused. Every response (any id, result and error text) is a signed kind-24133 event addressed to the client, who finds in it exactly those texts, or nothing is made.",
  ["inputs", "fault_sequences"], "all requests with any text in any member, foreign and damaged requests, all responses, failures of every allocation",
  "Tests round-trip a few literals; JSON-looking results, escapes, long ids and missing members are open-ended.",
  ["src/nip46.c"], [("request parsing", "src/nip46.c"), ("response making", "src/nip46.c")], ["nostr_nip46_parse_request", "nostr_nip46_create_response"],
  "Messages are sealed and opened by the independent implementation. Parameters that are no array, both result and error, and the request's own signature are unspecified.")
P("P41", "Wallet connection URIs and info events are read exactly or refused",
  "A NIP-47 connection URI gives exactly the wallet's key, the secret (and so the client's key), all relays in order and the lightning address, whatever the order, escapes and unknown members around them; one without a proper key, secret or relay is refused. An info event gives exactly the methods, notifications and encryptions it lists, and the preferred encryption follows from them.",
  ["inputs", "fault_sequences"], "all URIs and percent-escapes, malformed keys and members, all info events, failures of every allocation",
  "Tests parse one or two URIs; damaged hex, escapes and repeated members are unbounded.",
  ["src/nip47.c"], [("nostr_nip47_parse_connection_uri", "src/nip47.c"), ("nostr_nip47_parse_info_event", "src/nip47.c")], ["nostr_nip47_parse_connection_uri", "nostr_nip47_parse_info_event"],
  "Repeated secrets or lightning addresses, empty relays, repeated info tags and whether a key is a point of the curve are unspecified.")
P("P42", "Wallet requests say exactly what was asked, replies are read exactly",
  "Every NIP-47 request is a kind-23194 event addressed to the wallet and signed by the client, sealed so that the wallet finds exactly the method and parameters given; the parameters of every command are JSON with exactly the values given. A response or notification of the wallet gives exactly the request it answers, its type and its result or error, and every typed reader gives exactly the members present, never converting numbers that do not fit; what is malformed is refused.",
  ["inputs", "fault_sequences"], "all commands with all texts and 64-bit amounts, all well-formed and damaged replies, failures of every allocation",
  "Tests use one reply per command; large amounts, long texts, missing and mistyped members are separate cases.",
  ["src/nip47.c", "src/nip47_commands.c"], [("nostr_nip47_create_request_event", "src/nip47.c"), ("nostr_nip47_parse_response_event", "src/nip47.c"), ("parameter builders", "src/nip47_commands.c")], ["nostr_nip47_create_request_event", "nostr_nip47_parse_response_event", "nostr_nip47_parse_notification_event", "nostr_nip47_create_pay_invoice_params"],
  "The wallet's side is the independent implementation. Requests in NIP-04, amounts beyond 2^53 in replies and a result that is null are unspecified.")
P("P43", "Wallet sessions spend no more than permitted, live no longer than allowed",
  "For every history of sessions, permissions, payments, extensions and passing time, a payment is approved exactly if the session named by its whole id is alive, its first matching permission exists, and the amounts approved under it since its last reset stay within its limit (0: none). Sessions have unguessable distinct ids, each leads to its own wallet connection and ends when destroyed or past its (extended) time; no more sessions, permissions or creations per second exist than configured, and ended or failed ones take no place.",
  ["histories", "inputs", "fault_sequences"], "all histories of calls, clock steps and configuration updates, all 64-bit amounts and limits, all ids, failures of the random source and of every allocation",
  "Tests make one session and three checks; overflow, slot reuse, expiry and changed limits need longer histories.",
  ["src/nip47_session.c"], [("find_session", "src/nip47_session.c"), ("nostr_nip47_session_check_permission", "src/nip47_session.c"), ("cleanup_expired_sessions", "src/nip47_session.c")], ["nostr_nip47_session_create", "nostr_nip47_session_add_permission", "nostr_nip47_session_check_permission", "nostr_nip47_session_get_connection", "nostr_nip47_session_extend", "nostr_nip47_session_destroy"],
  "Histories run in child processes against a model with a virtual clock. Unspecified: the exact second of expiry or reset, extending or adding to an expired session, reset interval 0, and whether refused creations count toward the rate limit.")
P("P44", "Wallet sessions shared by threads behave as if used one call at a time",
  "When any number of threads create, spend from, extend, read and end wallet sessions, their own or each other's, including the very first use, no two threads touch the same memory unsynchronized and every outcome is one of some sequential order. In particular payments approved concurrently never exceed a limit together and never fall short of it, exactly one call ends a session, an ended session is used by nobody afterwards, and no more sessions exist than places.",
  ["schedules", "histories"], "all interleavings of 2 to 4 threads of generated session operations",
  "A race needs a particular interleaving; no test uses sessions from two threads.",
  ["src/nip47_session.c", "docs/THREAD_SAFETY.md"], [("list lock and session locks", "src/nip47_session.c"), ("nostr_nip47_session_destroy", "src/nip47_session.c")], ["nostr_nip47_session_create", "nostr_nip47_session_check_permission", "nostr_nip47_session_destroy"],
  "ThreadSanitizer on the library's own code plus conservation checks over all answers. A connection handed out is not used after its session may have ended.", "property-based testing of generated concurrent programs under ThreadSanitizer")
P("P45", "Private items of a list are sealed for its owner alone and read back exactly",
  "Whatever items a NIP-51 list holds, its event shows exactly the public ones as tags, and its content is a NIP-44 payload that opens under the owner's own key alone to exactly the private ones; read with the owner's key the event gives all items back with their values, hints and names unchanged and marked as what they are, without the key exactly the public ones. Contents of other programs are read just so, in any spelling of the JSON; what does not open, is cut, or is no array of arrays of strings is refused, and a list that cannot be sealed whole yields no event.",
  ["inputs", "fault_sequences"], "all item kinds, texts and sizes up to the NIP-44 limit, all JSON spellings and damages of the content, all foreign keys, failures of the random source and of every allocation",
  "Tests write and read back two short items; quotes, escapes, long values, further fields and damaged contents are open-ended, and an item that leaks into the tags is seen only by comparing everything.",
  ["src/nip51.c", "src/nip44.c"], [("serialize_private_items", "src/nip51.c"), ("parse_private_content", "src/nip51.c"), ("nostr_list_to_event / nostr_list_from_event", "src/nip51.c")], ["nostr_list_to_event", "nostr_list_from_event"],
  "The content is opened and made by the independent implementation of NIP-44. Empty hints mean the same as none; empty types or values, NUL characters, contents in NIP-04 and the reading of another author's list are unspecified.")
P("P46", "Secrets leave no trace in memory an operation used, released or failed to fill",
  "When a function given or producing private keys, seeds, mnemonics, passwords or keys derived from them returns, no copy of them, raw, in hex or in bech32 groups, is left on the stack the function used or in heap memory it released, whether it succeeded or failed at any step because input was bad, a cryptographic primitive refused, the random source failed or memory ran out. When it failed, its output holds none of them either, and a key pair, nsec URI, wallet connection or other holder that was destroyed keeps nothing.",
  ["inputs", "fault_sequences"], "all keys, seeds, mnemonics, passwords and operations on them, and failures at every call to a cryptographic primitive, random draw and allocation",
  "What is left behind has no effect on any result; a test would have to search the dead stack and freed blocks, on every error path.",
  ["src/key.c", "src/hd_key.c", "src/nip49.c", "src/nip44.c", "src/nip17.c", "src/nip59.c", "src/nip46.c", "src/nip47.c", "src/bech32.c", "src/nip21.c", "src/nip26.c"], [("secure_wipe calls", "src/key.c"), ("nostr_hd_key_derive_path / nostr_mnemonic_to_seed", "src/hd_key.c"), ("nostr_ncryptsec_decrypt", "src/nip49.c"), ("nostr_nip44_decrypt", "src/nip44.c")], ["nostr_keypair_generate", "nostr_hd_key_derive", "nostr_mnemonic_to_seed", "nostr_ncryptsec_decrypt", "nostr_nip44_encrypt"],
  "Found by searching the stack the call ran on and every released block for eight-byte pieces of the secrets. What cryptographic libraries leave on the stack inside their own calls, registers, and decrypted messages are outside the property.")
P("P47", "The library can be started and stopped any number of times, from any thread",
  "In any history of nostr_init, nostr_init_with_config and nostr_cleanup, with uses of the library between them, a start that reports success leaves a library that signs, verifies, generates, agrees and encrypts correctly, however often it was started and stopped before and whether several threads started it at once. A start refused because memory, a context or the random source failed can be retried, and until then every use is refused or correct; operations that start the library by themselves do so after nostr_cleanup as well. Starting twice is harmless, and nostr_cleanup releases every context.",
  ["histories", "fault_sequences", "schedules"], "all histories of starts, failed starts, stops and uses, including starts by several threads at once",
  "The suite starts the library once and never restarts it, nor lets a start fail or race.",
  ["src/key.c", "src/config.c", "src/hd_key.c", "src/nip26.c", "src/nip44.c"], [("nostr_init / nostr_cleanup", "src/key.c"), ("nostr_init_with_config", "src/config.c")], ["nostr_init", "nostr_init_with_config", "nostr_cleanup"],
  "Uses while nostr_cleanup runs in another thread, and uses of the operations that do not start the library by themselves while it is stopped, are not specified.")
P("P48", "A build without cJSON, threads or relay client keeps every other guarantee",
  "Built with the JSON, threading and relay client features off, the library computes the same event ids, for any number and size of tags and any text, and signs, verifies, mines, delegates, matches, validates and reads and writes tags, lists, reactions and key pairs exactly as the full build does; when memory runs out it answers rightly or refuses. Functions that need JSON refuse every call without touching their outputs, and the reported features are those built in.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all events (up to thousands of tags and values that grow sixfold when escaped), all histories of the properties it shares with the full build, every allocation failing, both cryptographic back ends",
  "The suite is only run on the full build; the id of the plain one comes from separate, hand-written serialization code.",
  ["src/event.c", "src/nip13.c", "src/key.c", "src/config.c", "src/relay_protocol.c", "src/relay_message.c", "src/relay_filter.c", "src/relay_nip11.c", "src/features.c"], [("serialize_for_id / escape_json_string without cJSON", "src/event.c"), ("mining without threads", "src/nip13.c"), ("stubs without JSON", "src/relay_protocol.c")], ["nostr_event_compute_id", "nostr_event_sign", "nostr_event_verify", "nostr_nip13_mine_event_threaded", "nostr_event_to_json", "nostr_client_msg_parse"],
  "The Windows presets build this way. Checks of P01, P02, P05, P06, P09, P13-P16, P18-P23, P25-P27 and P30 run on this build next to its own. Zap receipts and limits on parsed events need JSON and are left to the full build.")
P("P49", "Over a real connection, each side gets the other's messages whole, in order",
  "Against a conforming WebSocket relay, connecting asks for the path of the URL and announces CONNECTED if the relay accepts. Everything publish, subscribe and unsubscribe accepted reaches the relay as one text message each, in order, however many, large or slowly read; every message of the relay reaches its callback once and in order, however it is cut into frames and segments. When the relay ends the connection, DISCONNECTED is announced and every use is refused; after disconnecting or destroying, the relay has got what was accepted before and sees the end, and nothing is left behind.",
  ["histories", "inputs", "schedules"], "all histories of messages both ways, sizes, frame cuts, segments, speeds and ends, on one or several connections",
  "Tests have no server. What libwebsockets does when a connection is congested, or when two threads use it, shows only over a real connection under load.",
  ["src/relay.c"], [("service_thread_func", "src/relay.c"), ("callback_nostr_relay", "src/relay.c"), ("queue_message", "src/relay.c")], ["nostr_relay_connect", "nostr_publish_event", "nostr_subscribe", "nostr_relay_disconnect"],
  "libwebsockets itself against a relay of the harness on the loopback. No TLS. An address where nobody listens, and losing messages when the relay ends the connection, are left to P34.")
P("P50", "Any selection of features builds, names exactly itself and works alike",
  "Whatever features and cryptographic back ends are selected, the library compiles and links, and its feature list, supported NIPs, availability functions and back-end description name exactly what was selected. Every operation it offers, on the same input, answers exactly as in the full build: which other features are selected makes no difference to ids, keys, encodings, events, verdicts or error codes; what a part left out is needed for is refused as not supported, without output.",
  ["configurations", "inputs"], "all selections of 21 features (with NIP-44 where NIP-17, 46, 47 or 59 is, and libsecp256k1 where HD keys are), three choices of signing back end, OpenSSL and mbedTLS, and all inputs",
  "The suite is run on two selections out of millions, and never compares builds.",
  ["src/features.c", "src/event.c", "src/key.c", "src/nip51.c", "src/nip46.c", "src/nip26.c", "src/nip44.c", "include/nostr_features.h.in"], [("feature lists", "src/features.c"), ("conditional parts", "src/*.c")], ["nostr_feature_list_enabled", "nostr_feature_nip_supported", "nostr_feature_relay_available", "nostr_feature_crypto_backend_info"],
  "A differential check of builds: what the full build answers is judged by the other properties. Selecting NIP-17, 46, 47 or 59 without NIP-44, or HD keys without libsecp256k1, is left out: they call it, do not link without it, and the build system does not say so. The parts of sources of features that are switched off are not built by CMake and not checked.")
P("P51", "Without cJSON, Wallet Connect and sealed messages stay right or are refused",
  "Built without the JSON feature, the library makes the payment parameters, requests, wallet connections, budgets, encrypted messages and lists with private items that the full build makes, valid and complete for texts of any length and content, without touching memory it does not own. What a wallet sent is either read as it was written, or refused without output: no amount, preimage, type or wallet detail is handed out that the message does not state as that member.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all parameters, requests, connections, sessions, payloads and lists of P36-P38, P41-P43 and P45, and all replies and results in any JSON spelling, with member names inside strings and nested objects, every allocation failing",
  "This build is not made for the suite; its JSON is written and read by separate, hand-written code.",
  ["src/nip47.c", "src/nip47_commands.c", "src/nip47_session.c", "src/nip51.c", "src/nip44.c", "src/nip46.c"], [("parts of the builders and readers without cJSON", "src/nip47_commands.c"), ("private items without cJSON", "src/nip51.c")], ["nostr_nip47_create_pay_keysend_params", "nostr_nip47_create_multi_pay_invoice_params", "nostr_nip47_parse_balance_response", "nostr_nip47_parse_response_event", "nostr_nip47_parse_info_response"],
  "Texts that are no JSON, replies with escapes (which may be refused), and amounts over 2^53 are left out. Built against the stand-in for noscrypt; OpenSSL only.")
