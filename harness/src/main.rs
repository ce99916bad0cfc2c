mod kat;
mod rc;
pub mod env;
pub mod refm;
pub mod rt;
pub mod util;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

mod c_msg;
mod c_ntru;
mod c_pb3;
mod c_sig;
mod c_sponge;
mod c_tree;
mod c_trits;

use rt::{Def, Level::*};

static DEFS: &[Def] = &[
    Def {
        id: "C20",
        level: Exploration,
        rule: "Every kind of channel message over all signing-key heights and indices to a bound (and one tall key at its first, middle and last signature), all optional parts, all pairs of payload lengths to a bound and lengths around rate and size-field boundaries to 88000 trytes, all recipient counts, linked and starting states, and each kind after each other. Written and read by the real code: announced size, consumption, values and both end states compared.",
        assumptions: &["size preconditions of the writer are asserts: buffers are made by sizeof"],
        run: c_msg::c20,
    },
    Def {
        id: "C21",
        level: Exploration,
        rule: "The message space of C20, each message written by the real code compared trit for trit with the reference writer, and read by the reference reader, and the reference's message read by the real one. Non-trivial: both directions compared.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_msg::c21,
    },
    Def {
        id: "C22",
        level: FaultEnumeration,
        rule: "Every altered trit of all eleven authenticated messages, both ways (inside one-time signature chains at a stride, quick 23, thorough 2); payloads of up to 31200 (thorough 65601) trits altered, and neighbouring pieces exchanged, at a stride; every wrong linked state, key, secret and link, trusted keys one trit away; parts of two genuine messages spliced at every offset; windows zeroed, made constant, negated, reversed or rotated; every assignment of signers. Non-trivial: input differs from the genuine one and rejection (or a different recovered key) was required.",
        assumptions: &["a linked state is committed before it is altered, as otherwise the change has not entered it", "the join link itself is not absorbed: replacing it is refused because the link leads to another state"],
        run: c_msg::c22,
    },
    Def {
        id: "C23",
        level: FaultEnumeration,
        rule: "Every message of every kind cut at every trit, keyloads cut at every trit for every kind of reader, every short buffer, fillings of many lengths, every claimed payload size and repetition count at boundaries, every head tryte and digit of size fields, every tag of the optional key, every claimed signature height, altered capsules and keys, headers likewise; fenced buffers, metered memory, caught panics, supervised process. Non-trivial: a result was required (error for a cut message) and compared.",
        assumptions: &["memory bound: a constant multiple of the buffer plus a constant"],
        run: c_msg::c23,
    },
    Def {
        id: "C24",
        level: Exploration,
        rule: "Every ordered list of recipients of up to 4 (thorough 5) pre-shared and 3 public keys, read with every subset of secrets, unlisted secrets every wrong secret under a listed identifier, every secret and identifier one trit away; each of up to 40 recipients alone; one recipient at each place among up to 366 shared keys (thorough 1094) or 55 public keys (thorough 365); recipients listed repeatedly. State, consumption and verdict compared with the author's.",
        assumptions: &["other recipients' entries are not authenticated by a keyload (by design)"],
        run: c_msg::c24,
    },
    Def {
        id: "C25",
        level: ModelChecking,
        rule: "Depth-first exploration of all channel histories of up to 4 (thorough 5) messages over announce, change-key, signed, tagged, keyload, subscribe and unsubscribe with every link target; chains of several keys; several subscribers; 14 regular channels of 300 (thorough 3000) messages. State: history so far (kinds, links, keys trusted); transition: one message written and read, or one refusal tried (wrong link, unknown link, wrong key, unvouched signer); every one is executed on the real code, genuine messages also by the reference reader; trace: one complete history.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "a keyload carries no authentication of its own: with a wrong link it must lead to another state instead of an error"],
        run: c_msg::c25,
    },
    Def {
        id: "C26",
        level: Exploration,
        rule: "Every version tryte, every type length to 800 (thorough 10000) and some to 88573 trytes, every single-trit difference of type, application instance and message identifier in writer or reader, exchanged identifiers, headers cut at every trit, a tag and a signature after each. State and verdict compared.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "application instances are made with a guarded constructor"],
        run: c_msg::c26,
    },
    Def {
        id: "C07",
        level: Exploration,
        rule: "Every size up to 27^4 (thorough 27^5/2), 200 values on each side of every change of length, all powers of 27 and of 2 with neighbours, every pair of digits over several backgrounds; decoder: every head with every body of up to 2 (thorough 3) trytes, constant bodies, and every string of up to 9 (thorough 12) trits, in clear and masked. Oracle: the language of size fields defined independently in the harness. Non-trivial: encoding, decoding, consumption and acceptance all compared.",
        assumptions: &[],
        run: c_pb3::c07,
    },
    Def {
        id: "C08",
        level: ModelChecking,
        rule: "All sequences of protocol fields: every field of the full alphabet from each of the 487 sponge positions, every pair of fields over several positions, every three (thorough four) short fields, every value of a tryte-sized field, every payload length, size and repetition fields around every length of their encoding; every readable value read in place over several old values and anew with the same outcome; a reader in another state and every altered trit before a tag. State: sponge position and state before a field; transition: one field written and read by the real code and by the reference, with buffer, value, consumption and both sponges compared; trace: one sequence.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "a length prefix and a body altered together may still be well formed; detection is claimed at the following tag"],
        run: c_pb3::c08,
    },
    Def {
        id: "C09",
        level: FaultEnumeration,
        rule: "Every reader (absorbed and masked, every field kind) over: every buffer of up to 8 (thorough 11) trits, constant and irregular buffers of every length to past the largest fixed field, every genuine field cut at every trit, every lying size at tryte-count boundaries against many buffer lengths, signature headers of every height, altered full-length capsules and keys. Buffers end at an inaccessible page, allocation is metered, panics are caught, the process is supervised. Evaluation: one read; non-trivial: the result or consumption was judged against what the field requires.",
        assumptions: &["memory bound: a constant multiple of the buffer plus a constant"],
        run: c_pb3::c09,
    },
    Def {
        id: "C17",
        level: Exploration,
        rule: "Every pair of the 12289 coefficient values for multiplication, addition and subtraction; every value at every slot for inverse, codec, rounding, tripling, equality and small-coefficient operations; a zero at each of the 1024 positions; all out-of-range encodings at each position; every pair of monomials, i.e. the whole multiplication table, through the transform; dense polynomials against schoolbook products; a root at each of 1024 points. Oracle: integer arithmetic modulo 12289 in the harness.",
        assumptions: &[],
        run: c_ntru::c17,
    },
    Def {
        id: "C18",
        level: Exploration,
        rule: "Every nonce up to 7 (thorough 9) trits, including those whose first candidates are not invertible, further generator keys and longer nonces; constant, cyclic and unit keys; every sponge position; every capsule nonce length; every ordered pair of 16 (key, nonce) choices, one generation or capsule after another; arguments as parts of longer containers. Capsule and key pair are compared with the reference scheme, decapsulation both ways and end states compared. A case is non-trivial when a key was encapsulated and recovered.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_ntru::c18,
    },
    Def {
        id: "C19",
        level: FaultEnumeration,
        rule: "Every capsule trit altered both ways (quick: a stride), every coefficient changed by small steps, negated, set to extremes and out of range; rearranged capsules; all other private keys, including one trit away; other sponge states; public-key imports of every length, over fresh and used keys and as a field, with each coefficient out of range and with a root at each of the 1024 points. Non-trivial: rejection required and observed, or an accepted import compared with the reference.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_ntru::c19,
    },
    Def {
        id: "C13",
        level: ModelChecking,
        rule: "Both traversals over a free algebra of leaf and merge terms, heights 0 to 20 (thorough 22): the full life of each tree and advances past its end. State: (implementation, height, leaf number or exhausted); transition: one advance; at each state root, leaf number, height and authentication path are compared with the perfect tree. Trace: one full life. The terms are uninterpreted, so the result holds for every hash.",
        assumptions: &["the generic traversal cannot look inside its nodes"],
        run: c_tree::c13,
    },
    Def {
        id: "C14",
        level: ModelChecking,
        rule: "Both traversals, heights 0 to 9 (thorough 10): store and load at each leaf, at each pair of points of heights to 6 (thorough 7), at every subset of points of small trees, before the first advance and when exhausted; equality of every two points of trees to height 5 and with each stored node changed; all wrong node counts 0 to twice the right one and all leaf numbers past the end; trees of heights to 16 (thorough 18) at chosen points; claimed heights to 60 with fewer nodes than levels, refused without walking them. State: (implementation, height, leaf, reload points so far); transition: an advance or a reload; the remaining life is compared with a tree that was never stored.",
        assumptions: &[],
        run: c_tree::c14,
    },
    Def {
        id: "C11",
        level: Exploration,
        rule: "Every value of every digit at all 78 positions over several backgrounds, every checksum value -1014..1014 twice, constant and cyclic hashes over several keys, keys by turns over one hash, many keys, nonces of every length to 1000 (thorough 3000) in up to 30 pieces, arguments as parts of longer containers. The signature is compared trit for trit with the reference chains, recovered and verified. Non-trivial: signature, recovered key and verdict all compared.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_sig::c11,
    },
    Def {
        id: "C12",
        level: FaultEnumeration,
        rule: "Every single-trit change of the hash (several hashes) and of all 13122 signature trits; every chain element substituted at every part; parts exchanged; other keys; every forgery by raising one digit or moving a unit between any two digits with every advanceable part advanced; the checksum digits of every sum and dominance for every pair of sums. Non-trivial: the altered input differs from the genuine one and the verifier's answer was required to be a rejection.",
        assumptions: &["the hash function is one-way: forgeries that invert a chain are not enumerated"],
        run: c_sig::c12,
    },
    Def {
        id: "C15",
        level: ModelChecking,
        rule: "Full lives of keys of heights 0 to 4 (thorough 7; 8 to 10 through the code's own verifier) with both tree implementations: every index signed, signed again, signed on a copy, verified, recovered, two keys by turns over the same hash, compared with the reference signature; nonces of boundary (thorough all) lengths to 1000; every sign/skip pattern of 16 steps of a small key; arguments as parts of longer containers; headers and one-time keys of heights up to 20 at all indices next to powers of 2 and 3 over a tree with given inner nodes; refusal when exhausted (caught). State: (height, implementation, index); transition: sign or next; trace: one life.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "heights up to 20, the largest the header and usize arithmetic support without a leaf table of unreasonable size"],
        run: c_sig::c15,
    },
    Def {
        id: "C16",
        level: FaultEnumeration,
        rule: "Every altered trit of header, path, hash, public key and (quick: a stride, thorough: every) one-time signature; every truncation; trailing trits, with every content of up to 6; every height -40..40 in the header with boundary indices; every index -100..100 (thorough -10000..10000); parts of signatures mixed; path nodes permuted; other keys; short and arbitrary buffers in fenced memory. Verified through the free function, the key's method and recovery. Non-trivial: differs from the genuine signature and the verdict was compared.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_sig::c16,
    },
    Def {
        id: "C04",
        level: ModelChecking,
        rule: "All ranges reachable by all narrowing, advancing, splitting and rewinding operations with all arguments on buffers of 0 to 9 (thorough 13) trits, by breadth-first search from the root view with every accessor checked at every range; every sequence of operations to depth 3 without merging; every content of pairs of views up to 3 trits and every pair of offsets for each bulk operation, with fenced surroundings; every chunk size; equality, hash and position tests for every pair of ranges; every operation, two-view operation and comparison at 38 lengths and offsets up to 65537 around powers of 2 and 3 and the sponge rate. State: (container size, range); transition: one operation on the real view compared with an array range; trace: one unmerged operation sequence.",
        assumptions: &["arguments within the documented preconditions (asserted by the code); is_overlapped is checked for non-empty ranges"],
        run: c_trits::c04,
    },
    Def {
        id: "C05",
        level: Exploration,
        rule: "Every integer of the 1-, 3-, 6- and 9-trit fields, all 27 unsigned trytes, every Unicode scalar value, every string up to three characters in views of every length, every trit pattern up to 9 trits; every field at every offset to 1100 (thorough 3000) and around 65536; texts of up to 1100 (thorough 3000) trytes; all 3^18 integers of the 18-trit field (thorough: over three backgrounds). Oracle: balanced little-endian positional arithmetic and the table 9A..Z. Non-trivial: encode, decode and untouched surroundings were all compared.",
        assumptions: &["remainder helpers are checked in the range of their callers' arguments"],
        run: c_trits::c05,
    },
    Def {
        id: "C06",
        level: Exploration,
        rule: "Every value of every width up to 9 trits at several places of a container, every carry length up to 243 trits ended by either digit with every width, carries of up to 65537 trits, every offset of a container to 1100 (thorough 3000), and the complete walk from zero to the first overflow for widths up to 13 (thorough 17). Oracle: ternary addition of one. Non-trivial: value, flag and surroundings compared.",
        assumptions: &[],
        run: c_trits::c06,
    },
    Def {
        id: "C01",
        level: ModelChecking,
        rule: "Enumerated without merging: every message length up to 760 (thorough 2300) under six fillings; one nonzero trit at every position of two blocks; every pair of trits of a block; every cut of input and of output into two calls over lengths around the rate; every history of absorb calls, then squeeze calls, over boundary lengths; every reset position; one or two calls of up to 257 (thorough more) blocks; one sponge reset and reused 700 (thorough 70000) times; the permutation on every single trit and column value. States are sponge configurations (calls made so far, trits absorbed or squeezed), transitions are calls, each executed on the real TroikaSponge and compared trit for trit with the reference sponge; a trace is one complete call history. Non-trivial: the output was compared.",
        assumptions: &["rounds, S-boxes and constants of the reference are right: it is tested against the published Troika hash answers on every run", "absorbing again after squeezing without a reset is outside the property"],
        run: c_sponge::c01,
    },
    Def {
        id: "C02",
        level: ModelChecking,
        rule: "Breadth-first exploration of all operation sequences over two sponges: absorb, squeeze, squeeze-and-compare, encrypt, decrypt with piece lengths around the 486-trit rate, commit, fork, join, export and import of the inner state, copies made over sponges in six other states, to depth 3 with nine (thorough fifteen) piece lengths and to depth 4 (thorough 5) with smaller alphabets; then every cut of every kind of piece at several starting positions (tags also with a trit altered), pieces of up to 257 blocks, every hash length, hashes of up to 140 (thorough 1000) pieces, and every pair of operations alternating for 130 (thorough 1100) rounds. A state is the model state reached (position, full sponge contents of both sponges); every transition runs on the real Spongos and on the model and every output plus a final probe of the whole state is compared. Trace: one root-to-leaf sequence.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "a state is exported only when committed (the code asserts this); import restores the inner part over a zero outer part as documented"],
        run: c_sponge::c02,
    },
    Def {
        id: "C03",
        level: ModelChecking,
        rule: "Every message length up to past two blocks x starting positions x buffer arrangement (in place, separate buffer, region before or after in the same buffer, containers) x fillings; pieces of up to 257 blocks; every cut on either side; tags of every length with every single trit altered both ways and every pair of trits of short tags, and constant, shifted, negated, reversed, rotated and half-right tags of every length. Encryption by one real sponge, decryption by another in an equal state; ciphertext and both end states compared with the model; everything around the views is compared unchanged. A state is (position, arrangement, length), a transition one encrypt/decrypt/compare call, a trace one writer/reader pair.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers", "input and output are the same or non-overlapping, as documented"],
        run: c_sponge::c03,
    },
    Def {
        id: "C10",
        level: Exploration,
        rule: "Keys and nonces with all lengths around the rate, every output length to 1000 (thorough 3000), every nonce length, every split of nonce and output into three pieces, all lists of four pieces of which any are empty, up to 140 (thorough 1000) nonces and outputs, lengths of up to 257 blocks, every single-trit change of a 243-trit key and nonce, every history of four calls on one generator and its clones, keys and nonces (also of 1000 trits) by turns with ones that differ in a trit or in length, 600 (thorough 70000) calls of one generator, all arguments as parts of longer containers at 24 x 24 places. Oracle: absorb key, absorb nonces, commit, squeeze on the reference sponge.",
        assumptions: &["the harness's own definition of the scheme (refm.rs, rc.rs), checked against published Troika answers"],
        run: c_sponge::c10,
    },
];

fn main() {
    std::process::exit(rt::main(DEFS));
}
