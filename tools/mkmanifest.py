#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "explicit-state / stateless exploration of the real code, exhaustive within stated bounds"
TOY = "complete enumeration on small-parameter instances of the real code plus exhaustive boundary-alphabet products on the standard parameters"
T = {
"C01": (TOY + ", register-machine state search and all depth-2 operation sequences", "All element pairs and all reachable two-register states of the real field classes on small primes; on the standard primes all pairs of a boundary alphabet, every operation and aliasing, and all ordered pairs of operations. Values outside the alphabet on the standard primes are not covered."),
"C02": (TOY + ", operation sequences to depth 2 and 3", "As C01, for inversion and division; sequences mix fields and repeat values so that memoised or shared state shows."),
"C03": ("complete group-table exploration on small curves, two-register state search, and boundary-alphabet products and operation sequences on the standard curves", "Every pair of group elements (infinity included) and every aliasing on small curves of both families; a boundary alphabet on the standard curves against an independent group-law reference."),
"C04": ("complete enumeration of points x scalars on small curves, boundary-scalar enumeration on the standard curves", "Every point with every scalar in several periods of the order on small curves; all scalars of an alphabet of limb, order and bit-pattern boundaries on the standard curves against an independent reference."),
"C05": ("complete enumeration of coordinate pairs on small curves; boundary-alphabet enumeration of points and parameters on the standard curves", "isValid is compared with the curve equation on every coordinate pair of small curves and on perturbations of standard points; constants are compared with the published ones."),
"C06": ("complete enumeration of points and x-coordinates on small curves; alphabet enumeration on the standard curves", "All finite points and all x on small curves, several hundred x on each standard curve."),
"C07": ("exhaustive comparison of all pairs of values of every comparable type on small curves; single-component perturbations on the standard ones", "Pairs over complete small domains; equality is also required to survive copies and later changes."),
"C08": ("exact distribution computed by enumerating every answer of the random source (choice-tree exploration)", "Uniformity and relations are decided exactly on small orders by enumerating all draws; on the standard order the drawn range and the mapping from draws are checked. The quality of GMP's generator is trusted."),
"C09": ("exhaustive choice-tree exploration of setups, keys, encryption randomness and messages on small groups, plus all operation interleavings to a depth", "Every CRS, key and randomness of groups of order 5 (7 in thorough) on the real scheme; boundary draws on secp256r1."),
"C10": ("exact ciphertext distributions from exhaustive choice trees on small groups", "Perfect hiding is decided exactly for every non-degenerate CRS and key of the small groups; on secp256r1 the structure of the randomness is checked."),
"C11": ("exact public-key distributions from exhaustive choice trees on small groups", "Every decryption-mode setup of the small groups; boundary draws on secp256r1."),
"C12": ("complete enumeration of the message range on medium-sized curves; boundary messages, including ones needing many attempts, on large ones", "All messages of curves with 14 to 20 bit primes; an alphabet (every bit length, hard-to-encode messages) on secp256r1 and large-cofactor curves."),
"C13": ("exhaustive choice-tree and evaluation-tree exploration on small groups", "All message pairs and randomness, and all evaluation trees to a depth over a pool of ciphertexts."),
"C14": ("exhaustive exploration of sessions, choices, messages and randomness on small groups; all session sequences to a depth", "As C09 for the transfer protocol; sequences mix message kinds, choices and several transfers per selection."),
"C15": ("exact distributions of protocol messages from exhaustive choice trees on small groups", "Receiver and sender privacy decided exactly on small groups after several session histories; randomness consumption on secp256r1."),
"C16": ("exhaustive exploration of senders, choices and messages on small groups; all batch sequences to a depth", "All messages with up to three senders, all sequences of batches, batches of several hundred ciphertexts."),
"C17": ("exhaustive enumeration over every table entry, length, alignment, cut and small buffer against a bitwise CRC-32C reference", "Every byte value at every position of the slicing window, every length to a bound, every cut of a buffer, every integer to a bound; AddressSanitizer variant."),
"C18": ("exhaustive fault enumeration: every error pattern of the guaranteed classes on frames up to a bound", "All 1- and 2-bit flips and all burst patterns up to a width on every frame of an alphabet; the verdict on arbitrary integers is compared with the reference; AddressSanitizer variant."),
"C19": ("exhaustive enumeration over lengths, keys, small plaintexts, engineered ciphertext prefixes and all initialisation sequences, against CTR built from single-block AES", "Every plaintext length to a bound, every key below 2^16 and every key length, every initialisation/operation sequence to a depth, with an AddressSanitizer variant. OpenSSL's block cipher is trusted."),
"C20": ("exhaustive enumeration of keys, lengths and corruption patterns", "As C19 plus all 1-bit and 2-bit flips, bursts, truncations and arbitrary integers; rejection is due unless the altered data carries a valid checksum by the independent reference."),
"C21": ("exhaustive enumeration of all thresholds and inputs of the real protocol at reduced width, all shuffles, boundary draws; all bit-boundary pairs at 16 bits", "Runs the real protocol code; the width is reduced through a guarded hook to enumerate all pairs (2, 3 and 4 bits). At 16 bits pairs around every bit boundary."),
"C22": ("exhaustive enumeration as for C21 with a client that tries every key it can derive on every ciphertext (Dolev-Yao closure)", "The closure of what the client can open is computed for every pair of the reduced widths and for boundary pairs at 16 bits."),
"C23": ("exhaustive enumeration of session sequences and of all interleavings of two pairs of parties", "All sequences to depth 3 over input classes, secrets, completed and aborted sessions."),
"C24": ("exhaustive choice trees on small groups, all orders of ciphertexts, all sums of a boundary alphabet, call sequences", "Complete for up to two (three) users on small groups; sums over the 16-bit range on a group with order just above 2^16 and on the standard curve."),
"C25": ("exhaustive choice trees on small groups, enumeration of altered sums and tags", "The tag equation is decided in the exponent with the complete group table. Verify accepting altered aggregates is a known finding of the library and reported as such."),
"C26": ("exhaustive enumeration of secrets, dealer randomness, subsets and orders on small fields; all subsets on the standard field", "Every polynomial of small fields for all (t, n) to a bound; boundary secrets on the standard field; sequences over two objects."),
"C27": ("exact joint share distributions from exhaustive enumeration of the dealer's randomness on small fields", "Uniformity decided exactly on small fields; on the standard field the map from draws to shares is shown affine and invertible."),
"C28": ("exhaustive enumeration of small integers and byte strings, every length to a bound, all conversion sequences to a depth", "AddressSanitizer variant and GMP allocation balance included."),
"C29": ("exhaustive enumeration of keys, messages and randomness on small groups; boundary messages on large ones; call sequences to a depth", "Complete on small groups for points; integers over large-cofactor and standard curves."),
"C30": ("exhaustive enumeration of construct/copy/assign/use/destroy sequences under AddressSanitizer; allocation balance", "All sequences to depth 5-7 on two slots for every copyable type, OPPRF parties copied at every step of a session, and the byte-level operations' explorations repeated with AddressSanitizer."),
"C32": ("exhaustive enumeration of operation histories to depth 2 (3) in pairs of real processes with frozen clock, process numbers and address layout; enumeration of all single-bit changes of the entropy words", "Every history of 18 randomised operations up to the depth, each repeated, in two processes; equality of any two values is a violation. Dependence on entropy is decided by holding every word of std::random_device, getrandom and getentropy constant and changing single bits; sources outside these make the part stand down (the processes must still differ)."),
"C33": ("exhaustive enumeration of the server's orders for all thresholds and inputs at reduced width, with a client that tries every key", "Every choice of order in every message, all pairs at 2 bits, a subset (thorough: all) at 3 bits; at 16 bits every order of each message for boundary pairs. Where the implementation puts a generator between entropy and order, reachability of every combination of positions and coarse balance are decided instead of exact probabilities."),
"C34": ("exact distributions of the aggregator's view from exhaustive choice trees on small groups; single-draw flips of the set-up on the standard curve", "Every set-up randomness of two users (and of three with one corrupted) and all message vectors of the small group; on secp256r1 each key is shown to follow a draw of its own. Period 0 and linear relations between periods are known findings."),
"C35": ("exact joint distributions of all pairs and triples of randomised operations from exhaustive choice trees on small groups; single-draw flips of all pairs on the standard curves", "All ordered pairs of 19 operations on one and on two objects, bounded by the size of the tree (the bound is in the evidence); on the standard curves every draw of every pair history is changed alone, and hundreds of repetitions show no repeated value."),
"C37": ("complete enumeration of the values of small instances and of boundary values of the standard ones in three bases; all sequences of three prints", "Every element, every point and the result of every binary operation of small fields and groups; on the standard curves boundary residues, multiples of the generator and coordinate pairs. The numbers must appear as whole words in order; the punctuation is free."),
"C38": ("twin executions of all operation sequences to a depth with the same randomness, arguments compared after each call and in one twin overwritten and destroyed", "All sequences of three (ElGamal and AES: four) operations of each class, every operator on every pair of small instances, OPPRF sessions for every pair at 2 bits; with an AddressSanitizer variant. Curves passed by pointer stay alive, as the interface requires."),
"C36": ("exact distributions of each party's view from exhaustive choice trees of the real protocol at reduced width on small-order curves", "All inputs and client randomness for one and two sessions at 2 bits (one at 3); all thresholds, inputs, secrets and preparation randomness at 2 bits in a group of order 5 (thorough 7). Distances below 2/n are not told apart from the degenerate blinding point."),
}
checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "evidence_file": "evidence/%s.json" % p, "technique": "bounded model checking by explicit enumeration: " + t, "level": "model_checking",
           "level_note": n + " Random sources are owned by the explorer; GMP, OpenSSL and the compiler are trusted."} for p, (t, n) in sorted(T.items())]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "CRYPTO_UTILS_VERIF_MSG_BITS",
               "enable": "check.py compiles the library's sources with -DCRYPTO_UTILS_VERIF_MSG_BITS=N for the reduced-width OPPRF parts; every other part is compiled with the guard off",
               "source_commits": ["81704e2"]},
     "checks": checks,
     "not_applicable": [{"property": "C31", "reason": "Computational indistinguishability quantifies over all efficient adversaries and unbounded parameters; it is not a property of a finite set of executions, and on the small groups that can be enumerated it is false by brute force."}],
     "notes": "One driver, check.py; parts and bounds in harness/jobs.py; DESIGN.md describes each."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
