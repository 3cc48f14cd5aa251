# Per-property run configuration.
#   src: harness sources;  cases: per-worker case counts (quick, thorough);  mbed: also run on the mbedTLS build
#   rule: what a case is and when it is non-trivial (goes to the evidence)
C = {}
def P(id, src, quick, thorough, rule, mbed=False, level="exploration", kind="pbt", extra=None, assume=None, hang=25, nip44=False, mockws=False, enc=False, plain=False):
    C[id] = dict(src=src, quick=quick, thorough=thorough, rule=rule, mbed=mbed, level=level, kind=kind, extra=extra or {}, assume=assume or [], hang=hang, nip44=nip44, mockws=mockws, enc=enc, plain=plain)
EV = ["p_event.cpp"]
P("P01", EV, 10000, 300000, "A case is one generated event (or pair) hashed and serialized; non-trivial: it has tags or content needing escapes, or the pair differs in a hashed field.", mbed=True, enc=True)
P("P02", EV, 10000, 300000, "A case signs, or tampers with and verifies, one generated event; non-trivial: signing cases, cases with at least one mutation, invalid secrets, RNG failures.", mbed=True, enc=True)
P("P03", EV, 10000, 300000, "A case is one event serialized and parsed back, or one alternative JSON spelling parsed; non-trivial: tags and content both present, or an alternative spelling.")
P("P04", EV, 10000, 300000, "A case is one malformed/mutated/garbage JSON text given to the parsers; non-trivial: derived from a well-formed event or a non-event root.")
P("P05", EV, 10000, 300000, "A case is one history of tag/content operations compared with a list model; non-trivial: more than 3 tags added, single-character names for the indexability predicate.")
KEYS = ["p_keys.cpp"]
P("P06", KEYS, 25000, 500000, "A case is one hex import, key-pair history, ECDH agreement, or generation under a scripted random source; non-trivial: malformed or upper-case hex, refused imports, histories of more than one operation, ECDH, RNG faults.", mbed=True, enc=True)
P("P07", KEYS, 120000, 2000000, "A case encodes 32 bytes into a buffer or decodes one (possibly damaged) bech32 text; every case counts as non-trivial, classes separate valid from damaged texts.")
P("P08", KEYS, 30000, 500000, "A case is one entity encoded and decoded back, one TLV record sequence, or one URI text; non-trivial: TLV entities, record sequences, URIs.")
PR = ["p_proto.cpp"]
P("P09", PR, 20000, 500000, "A case matches one generated event against one filter or filter list; non-trivial: the filter has at least one condition, lists of more than one filter.")
P("P10", PR, 12000, 300000, "A case parses one filter text (equivalent spelling, ill-typed, oversized or damaged); non-trivial: more than one member, or malformed.")
P("P11", PR, 12000, 300000, "A case parses one client message; non-trivial: carries filters or an event, or must be refused.")
P("P12", PR, 20000, 400000, "A case serializes one relay message into a roomy and a boundary-sized buffer; every case is non-trivial.")
P("P13", PR, 40000, 600000, "A case classifies one kind, or compares all pairs of a small set of events; every case is non-trivial.")
P("P14", PR, 12000, 300000, "A case validates one event under a virtual clock, one timestamp, or one text; non-trivial: all but accessor cases with fewer than two references.")
P("P15", PR, 20000, 400000, "A case parses one deletion request and asks for authority over one target event; every case is non-trivial.")
P("P16", PR, 25000, 400000, "A case reads the expiration of one event and asks whether it is expired at several instants; every case is non-trivial.")
NP = ["p_nips.cpp"]
P("P17", NP, 12000, 300000, "A case serializes one relay information document or runs one history of NIP-list edits; non-trivial: more than 4 members, all histories.")
P("P18", NP, 25000, 500000, "A case parses one identifier, builds one URL, reads one (possibly damaged) response document or runs one verification; non-trivial: all but refused damaged documents.")
P("P19", NP, 25000, 500000, "A case reads the thread references of one event or adds them; non-trivial: the event has references.")
P("P20", NP, 6000, 150000, "A case verifies one proof of work, runs one history of nonce updates or mines one event; every case is non-trivial.")
P("P21", NP, 20000, 400000, "A case creates and parses one repost, parses one foreign repost or extracts quotes from one text; non-trivial: reposts, texts with at least one quote.")
P("P22", NP, 30000, 500000, "A case creates and parses one reaction or parses a foreign one; non-trivial: kind 7.")
P("P23", NP, 10000, 200000, "A case creates one delegation or verifies one delegated event (intact or tampered); every case is non-trivial.", mbed=True, enc=True)
WA = ["p_wallet.cpp"]; LI = ["p_lists.cpp"]
P("P24", WA, 2500, 60000, "A case encrypts and decrypts one key, reads one foreign (intact or damaged) text, or calls with one refused argument; every case is non-trivial.", assume=["scrypt is replaced by a cheap keyed hash of the same inputs in most cases; the real one runs in the cases labelled so"])
P("P25", LI, 12000, 250000, "A case is one history of list edits read out, written as an event and read back, or one foreign event read; non-trivial: more than one operation or item.")
P("P26", LI, 15000, 300000, "A case creates one zap request, parses one receipt, or verifies one receipt against a request; non-trivial: all but events of another kind.")
P("P27", LI, 5000, 150000, "A case is one relay list built, written as an event and read back, or one foreign event read; non-trivial: more than one relay, foreign events.")
P("P28", WA, 8000, 200000, "A case derives one master, one child or one path; every case is non-trivial.")
P("P29", WA, 3000, 60000, "A case generates, validates or stretches one mnemonic, or derives one account key; every case is non-trivial.")
CO = ["p_core.cpp"]
P("P30", CO, 1500, 40000, "A case validates one configuration and reads one environment, or runs one history of initialisation, updates, callbacks and uses in a process of its own; every case is non-trivial.")
RO = ["p_robust.cpp"]
P("P31", RO, 6000, 200000, "A case feeds one text to one entry point and everything it yields to every reader, twice; non-trivial: more than one byte or tag.", hang=10)
P("P32", RO, 2500, 60000, "A case runs one operation once with enough memory and then with each (at most 20) of its allocations failing, alone and with all later ones; non-trivial: the operation allocates.", level="fault_enumeration")
RL = ["p_relay.cpp"]
P("P33", RL, 900, 40000, "A case is one history of subscriptions, publications and relay messages (cut into fragments) on one connection; every case is non-trivial.", mockws=True, assume=["libwebsockets is replaced by a stand-in with the same callback contract; its real behaviour was compared by hand"])
P("P34", RL, 6000, 50000, "A case is one history of connecting, failing, closing, disconnecting and use of one relay; every case is non-trivial.", mockws=True, assume=["libwebsockets is replaced by a stand-in with the same callback contract; its real behaviour was compared by hand"])
P("P35", ["p_threads.cpp"], 600, 12000, "A case runs 2 to 4 threads of generated operations (then compares each answer with the one given alone), a set of concurrent configuration updates, or one relay in use while its service thread delivers; every case is non-trivial.", kind="tsan", mbed=True, enc=True, mockws=True, assume=["libwebsockets is replaced by a stand-in; nostr_init() was called before the threads start", "libsecp256k1, OpenSSL and mbedTLS are observed only through the caller's memory they read and write; races inside them and inside cJSON are not observed"])
EN = ["p_enc.cpp"]; NC = ["noscrypt is replaced by a stand-in over OpenSSL and libsecp256k1 with the same interface (standin/)"]
P("P36", EN, 1200, 60000, "A case encrypts one text (twice read back), compares 8 nonces, tries one refused call, one pair of configured limits, or one operation with each allocation failing; every case is non-trivial.", nip44=True, mbed=True, assume=NC)
P("P37", EN, 5000, 120000, "A case decrypts one payload of the independent implementation, intact or damaged; every case is non-trivial.", nip44=True, mbed=True, assume=NC)
P("P38", EN, 6000, 150000, "A case encrypts one text or decrypts one message, intact or damaged; every case is non-trivial (on mbedTLS, where NIP-04 is absent: none).", nip44=True, mbed=True, assume=NC)
P("P39", ["p_wrap.cpp"], 1000, 40000, "A case wraps one message or event and reads it back, unwraps one foreign wrap, intact or altered, or runs one operation with its random draws or allocations failing; every case is non-trivial.", nip44=True, assume=NC)
NW = ["p_nwc.cpp"]
P("P40", NW, 1000, 60000, "A case parses one request, proper or not, makes one response, or runs one with its allocations failing; every case is non-trivial.", nip44=True, assume=NC)
P("P41", NW, 12000, 300000, "A case reads one connection URI or one info event, proper or not, or does so with its allocations failing; every case is non-trivial.", nip44=True, assume=NC)
P("P42", NW, 4000, 100000, "A case makes one request or one set of parameters, reads one response, notification or result, or does so with its allocations failing; every case is non-trivial.", nip44=True, assume=NC)
P("P43", NW, 1000, 40000, "A case runs one history of sessions, permissions, payments, time and configuration updates, or one with its allocations failing, in a process of its own; every case is non-trivial.", nip44=True, assume=NC)
P("P44", ["p_nwc_threads.cpp"], 700, 8000, "A case runs 2 to 4 threads that create, use, extend and end sessions of their own and of each other, in a process of its own; every case is non-trivial.", kind="tsan", nip44=True, assume=NC + ["data races inside libsecp256k1, OpenSSL and cJSON are not observed"])
P("P45", ["p_plist.cpp"], 2500, 60000, "A case writes one list with private items and reads it back with and without the key, reads one foreign list, proper or not, or runs with its random draws or allocations failing; every case is non-trivial.", nip44=True, assume=NC)
P("P46", ["p_secret.cpp"], 1500, 20000, "A case runs one operation on secrets, once undisturbed and then with calls to cryptographic functions, random draws and allocations failing in turn, and searches all memory it used or released; every case is non-trivial.", kind="trace", enc=True, mbed=True, assume=["what functions of other libraries leave behind on the stack is cleared when they return and not searched", "registers are not searched"])
P("P47", ["p_life.cpp"], 250, 8000, "A case runs one history of starts, stops, uses and concurrent starts, some with the random source or the cryptographic library failing, and uses everything after a final restart; every case is non-trivial.", enc=True, mbed=True)
P("P48", ["plain_event.cpp", "plain_nips.cpp", "plain_proto.cpp", "plain_lists.cpp", "plain_core.cpp", "plain_keys.cpp"], 15000, 300000, "A case is one case of another property's check, or one event whose id, signature or refusal is compared with the oracle, on the library built without cJSON, threads and relay client; non-trivial: as in the check it is taken from.", plain=True)
P("P49", ["p_net.cpp"], 200, 8000, "A case is one history of messages both ways over one or two real connections on the loopback, one burst before disconnecting, or one relay that refuses; every case is non-trivial.", assume=["plain connections only: TLS, name resolution and proxies are those of libwebsockets"], hang=60)
P("P50", ["p_feat.cpp"], 16, 400, "A case builds the library with one selection of features and back ends and compares its answers to a few hundred questions with those of the full build; every case is non-trivial.", assume=["the sources that belong to a feature, and which features need which, are taken from CMakeLists.txt as it is now; the features that seal messages are built against the stand-in for noscrypt", "NIP-17, 46, 47 and 59 are selected together with NIP-44, whose functions they call, and HD keys together with libsecp256k1"], hang=240)
P("P51", ["plain_nwc.cpp", "plain_enc.cpp", "plain_plist.cpp"], 6000, 150000, "A case is one case of the check of P36-P38, P41-P43 or P45, or one set of payment parameters, request, reply or result, on the library built with NIP-44, 46, 47 and 51 but without cJSON; non-trivial: as in the check it is taken from, every other case is.", plain=True, nip44=True, assume=NC)
