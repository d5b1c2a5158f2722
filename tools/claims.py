PIPE = "The table of verify_header and finish (every function of the crate in between followed, loops as transition relations) is compared with an independent specification over a finite partition: all orders of the compared numbers at their boundaries, all combinations of the relevant variants, header and record lists up to a bounded length. Parsing, hashing and the cryptographic primitives are uninterpreted functions, so their own correctness is not part of this claim. "
CLAIMS.update(
 C01=(TABLE, PIPE + "One and two signatures, up to three records. Beyond the table, signed messages altered in one place are passed through the composed tables of signing and verification."),
 C06=(TABLE, PIPE + "Boundary values of now, x=, t=, tolerance and key size, with saturation; multiplicities of names up to three; defaults compared one by one."),
 C07=(TABLE, PIPE + "All combinations of key type, hash list, flags, identity relation and key quality."),
 C11=(TABLE, PIPE + "All headers of up to three fields (four in the thorough tier) over eight kinds of field, and a longer mixture, for several limits."),
 C12=(TABLE, PIPE + "Up to three signatures over names equal or not up to case and A-label form; every error kind the code distinguishes; a resolver that never answers."),
 C13=(TABLE, PIPE + "All answer lists up to five records over the kinds of outcome, and long ones with one good record."),
 C14=(TABLE, "Exhaustive: every value of the status type with its nested error kinds, in both feature configurations."),
 C15=(TABLE + " and a search of the resolved program for SHA-1", "Default feature configuration: no resolved function or type mentions SHA-1; key sizes at all boundaries; the verification table with RSA keys of every size around the floor, in both configurations."),
 C24=("effect analysis over all resolved function references, statics and unsafe blocks; taint of private key values to formatting", "Effects of the dependencies and of the caller's resolver are outside. Key taint follows values within functions and by type between them."),
 C25=(TABLE + " over ideal primitives", "Each public function of the crypto module, its primitives replaced by ideal ones that succeed for exactly one scheme, hash, key, message and encoding. The primitives themselves are trusted."),
 C26=("compile-time witnesses (auto trait bounds the library must satisfy to build)", "Generic over every Send + Sync resolver and key type; both feature configurations, and all features."),
 C30=("await placement over the call graph of the lookup loop", "Known finding: the lookups are awaited one after the other. A different construct that delays lookups is still reported."),
 C03=("product of an extracted finite-state transducer with a reference transducer", "All byte sequences whose runs of empty lines stay below the bound of the counter (4, thorough 9), by exploration of every reachable pair of states; every byte value in every state; chunks of several bytes must act as the sequence of their bytes, for all chunks up to the bound over the classes of bytes and a set of long ones. Longer runs of empty lines are only sampled."),
 C05=(TABLE, "All combinations of limits, chunk lengths around the limit, final output lengths and partial-hash setting up to the bound, the digest and the canonicalizer being uninterpreted. Then whole bodies in chunks, with the canonicalizers of the crate: through the hasher (limits, algorithms, stopping when it says it is done; octet counts around 2^8 to 2^32), and from signing to verification of the same and of altered bodies."),
 C19=(TABLE, "Exhaustive over variants; for parsing, every literal the code compares with, in several spellings, and near misses. Key record names are read in C09."),
 C20=(TABLE, "Equality and the data fed to the hasher are evaluated on all pairs of representative texts (ASCII letters, their neighbours, non-ASCII letters)."),
)
NA.update(
 C31="unforgeability quantifies over adversaries and rests on computational assumptions of the primitives; no static argument about this code decides it",
)
LIB = "The table of each function is extracted once and evaluated with the tables of those it calls (the base64 and IDNA libraries replaced by stand-ins with their kinds of outcome); "
CLAIMS.update(
 C08=(TABLE, LIB + "every tag over the cases of its grammar, all sets of absent tags, all positions, pairs of tags, i= and d= in all relations, t= and x= at boundaries; with several violations any of their kinds is accepted. Longer lists and values are covered by the loop summaries only as far as these cells reach."),
 C09=(TABLE, LIB + "every tag over the cases of its grammar, all absences, positions and pairs, in both feature configurations."),
 C10=(TABLE, LIB + "all words up to a length over the classes of characters that guards and grammar distinguish, white space forms in every place, one-token changes of longer lists, and a character of every class."),
 C21=(TABLE + "; visibility and construction sites of the types", LIB + "constructors on words over their character classes and at the length limits; who else builds or mutably exposes the types is searched in the whole crate. Identity's two parts are public fields by design and only its parsing is claimed."),
 C34=(TABLE, LIB + "constructors composed with the conversions, on words over classes of characters and labels, A-labels in several cases among them, and texts the stand-in refuses in one or both directions. The IDNA library itself is trusted."),
 C35=(TABLE + " applied repeatedly to its own final state, whose size is compared", LIB + "hasher, verifier and signer with several sets of registrations, nine kinds of body content, chunks of two sizes; the size of the state after 8 times 256 octets (thorough 2048) against that after 4 times. The state inside the hash library is trusted to be bounded, as are transient allocations within one chunk."),
 C22=(TABLE, LIB + "encoder and decoder on all byte values, all words up to a length over the classes, malformed UTF-8 forms; forms the RFC does not settle (lower-case or separated hexadecimal digits, repeated white space) may be decoded or refused."),
 C23=(TABLE, LIB + "all pairs of names covering the relations of labels, letter case and A- and U-labels; the use when parsing signatures likewise. The use when signing likewise."),
)
CLAIMS.update(
 C02=(TABLE, LIB + "canonicalize_headers on all headers and h= lists up to a joint length over names equal up to letter case or prefixes of each other; compute_data_hash on a matrix of them; removal of the b= value on all tag lists up to a length; the verification table for what is passed to them, and the composed signing tables."),
 C04=(TABLE, LIB + "all header values up to a length over the classes of bytes, every byte value in every position class, and the verification table for which half of c= is used."),
)
SIGN = "The tables of prepare_signing and sign are composed with those of every function they call (digest, signature primitives and the registered body hashers being ideal functions) and compared with an independent specification over "
CLAIMS.update(
 C32=(TABLE, SIGN + "the options of C17 and C18, each result prepended to its message and passed to the composed tables of verify_header and finish with the key record of the request's key; both the success of the verification and the equality of the parsed with the returned signature are required. The primitives are ideal (a signature verifies exactly for the message, key and algorithm it was made for)."),
 C16=(TABLE, SIGN + "all request options one at a time and in pairs, defects at every position among valid requests, zero to twelve requests. Body lengths that do not fit usize exist only on 32-bit targets and are not covered."),
 C17=(TABLE, SIGN + "one option at a time and a fixed selection of combinations of widths, indentations, header lists, identities, domains, times, lengths, copied headers, extension tags, orders and encodings. An expiration that saturates at the largest number is not required to be readable."),
 C18=(TABLE, SIGN + "the same options as C17; the signature must be the ideal one of the emitted value without b=, key and algorithm."),
 C29=(TABLE, "Every outcome that ends in a panic, of the functions reachable from the verifier and the parsers, is part of their tables; none of the cells of C02-C05, C08-C10, C19, C21, C22 and none of some hundred mutated, malformed and extreme messages, answers and settings passed to the composed tables of verify_header and finish leads to one. Panics inside dependencies and panics behind guards no cell meets are not found."),
 C27=(TABLE, SIGN + "all combinations of timestamp, validity and length at boundaries, all names of the default set and neighbours, and sets of up to ten requests some of which fail."),
 C33=(TABLE, SIGN + "line widths from 1 to 100 and beyond, several indentations, orders, name and value lengths; each line of the emitted value is measured."),
 C28=(TABLE, SIGN + "line widths from 1 to 100 and beyond, several indentations and orders; format_header and to_header_field evaluated on part of the results."),
)
