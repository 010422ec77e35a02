"""Which harnesses decide which property, and within what bounds."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = {"quick": 860, "thorough": 10000}
HARNESS_TIMEOUT = {"quick": 300, "thorough": 3600}

COMMON_ASSUMPTIONS = [
    "Kani 0.68 / CBMC 6.11 / CaDiCaL and rustc's MIR are trusted",
    "loops are unwound to the stated bounds with unwinding assertions on",
]

SHAPES = "s0_10 s0_11 s1_9 s1_10 s2_7 s2_8 s2_9 s3_6 s3_7 s4_5 s4_6 s5_3 s5_4 s5_5 s6_2 s6_3 s7_1 s7_2 s8_0".split()
BS58 = ("the bs58 crate is replaced by a relational model of base58 (crates/bs58-switch), whose agreement with the crate "
        "is assumed; counterexamples replay against the real crate")
MEMCHR = "core::slice::memchr::memchr and core::slice::ascii::is_ascii are replaced by byte-by-byte loops"

ANY = ("for acceptance and dash handling the bs58 model leaves open which number a valid text denotes (same text, same "
       "number); the exact values are decided by separate harnesses")

SPECS = {}


def spec(pid, **kw):
    SPECS[pid] = kw


spec("I01", crate="ids",
     quick=["numbers::number_round_trip", "numbers::numbers_distinct", "numbers::bytes_are_little_endian"],
     bounds="all 2^64 numbers (pairs of numbers for distinctness)")

spec("I02", crate="ids",
     quick=[f"rendering::{m}::{s}" for m in ("render_compact", "render_pretty", "parse_compact", "parse_pretty") for s in SHAPES],
     thorough=["rendering::string::compact", "rendering::string::pretty"],
     bounds="all 2^64 ids, split into the 19 possible (leading zero bytes, base58 digits) shapes; both text forms",
     assumptions=[BS58, MEMCHR])

def ascii_cases(lengths):
    return [f"parsing::ascii_total::l{n}_{p}" for n in lengths for p in ["n"] + list(range(n))]


def dash_cases(lengths):
    return [f"parsing::dash_ignored::l{n}_{p}" for n in lengths for p in range(n + 1)]


spec("I03", crate="ids",
     quick=ascii_cases(range(0, 15)) + [f"parsing::constructor::l{n}" for n in (0, 7, 11, 12)] +
           [f"parsing::wide_chars::{n}" for n in ("two_first", "two_across_dash", "two_before_five", "three_last",
                                                    "three_over_end", "four_middle", "four_alone")],
     thorough=ascii_cases([15, 16, 20, 24]),
     bounds="every ASCII text of at most 14 bytes (16, 20 and 24 in the thorough tier), case split on the position of "
            "its first dash; every text of 4 to 16 bytes with one 2, 3 or 4 byte character at selected positions. "
            "Longer text is outside the bound.",
     assumptions=[BS58, MEMCHR, ANY])

spec("I04", crate="ids",
     quick=[f"parsing::exact_all::l{n}" for n in range(0, 12)] + dash_cases([1, 7, 8, 9, 10, 11, 12]),
     thorough=dash_cases([0, 4, 13]),
     bounds="every base58 text of at most 11 characters; every ASCII text of the lengths 1, 7-12 with a dash at "
            "every position",
     assumptions=[BS58, MEMCHR, ANY])

spec("I06", crate="ids",
     quick=["numbers::issued_parts", "numbers::issued_distinct"],
     bounds="all blocks (32 bit), extrinsic indices below 65536 and account prefixes")


# ---------------------------------------------------------------------------------------------- payments

SHIM = ("FRAME (frame-support, frame-system, sp-*) is replaced by the stand-in in crates/shim: storage items are maps of "
        "at most 4 entries, vectors hold at most 4 elements, hashing is an injective copy, weights are not modelled; the "
        "pallet itself is compiled unmodified from /repo")
SAFE = "memory-safety checks are off for this crate: the code under check is safe Rust"
LEDGER = ("the asset ledger is a model of the fungibles interface: a performed operation does exactly what the interface "
          "promises; paths on which one is not covered are left out (P11: any may be refused; P13: exactly those not covered "
          "are refused); existential deposits are modelled as 1")
ROLLBACK = "calls that return an error leave no trace (transactional dispatch of FRAME)"
PERCENT = ("in dispute settlement `percentage of amount` is an uninterpreted function (at most the amount, 0% nothing, 100% "
           "all); its exact value is sp-arithmetic's business")
PAY = dict(crate="pay", kani_args=["--no-memory-safety-checks"])
PAY_BOUNDS = ("balances, amounts and fees of one asset below 2^28 each in 32-bit arithmetic (the pallet is generic over the "
              "balance type), five accounts, two assets, at most two fees per side, all values symbolic")
PLANS = ["none", "one_each", "sender_two", "sender_same", "beneficiary_two", "beneficiary_same"]


def money(names, plans=PLANS):
    return [f"money::{p}::{n}" for n in names for p in plans]


spec("P01", quick=money(["pay"]), bounds=PAY_BOUNDS, assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P02", quick=money(["release"]), bounds=PAY_BOUNDS + "; any balances and holds besides this payment's",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P03", quick=money(["cancel", "refund", "ask_refund"]),
     bounds=PAY_BOUNDS + "; any balances and holds besides this payment's", assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P04", quick=money(["dispute"], ["none", "one_each"]) +
           money(["sender_wins", "beneficiary_wins"], ["one_each", "sender_same", "beneficiary_same"]),
     thorough=money(["sender_wins", "beneficiary_wins"], ["none", "sender_two", "beneficiary_two"]),
     bounds=PAY_BOUNDS + "; every verdict (0 to 100 percent, either side)",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, PERCENT], **PAY)
spec("P05", quick=[f"rules::authority::{n}" for n in
                   "pay request release ask_refund accept cancel refund dispute resolve".split()],
     bounds="every origin that is not the entitled one: root, none, any of the other accounts; payments without fees",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P06", quick=[f"rules::lifecycle::{n}" for n in "created asked disputed requested finished unknown".split()],
     bounds="every pair of state and call that is not in the life cycle, any terms and balances; payments without fees",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P07", quick=[f"rules::timeline::{n}" for n in
                   "agenda due dispute_unschedules ask_then_dispute late end_of_time".split()],
     bounds="all 32-bit block numbers, a buffer period of ten blocks; payments without fees",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, "the scheduler runs a task at its time with the given origin, names are unique"], **PAY)
spec("P08", quick=[f"rules::neighbours::{n}" for n in "release cancel accept ask_refund resolve pay".split()],
     bounds="one other payment in any state, between the same parties, the same in swapped roles, or others",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, PERCENT], **PAY)
spec("P09", quick=["rules::neighbours::taken_id"],
     bounds="any parties out of five accounts and any terms for the second payment, paid or requested",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, PERCENT], **PAY)
spec("P10", quick=money(["request", "accept"]), bounds=PAY_BOUNDS, assumptions=[SHIM, SAFE, LEDGER, ROLLBACK], **PAY)
spec("P11", quick=[f"rules::refusal::{p}::{n}" for p in ("none", "one_each") for n in
                   "pay release cancel accept ask_refund dispute resolve".split()],
     bounds="each token movement or scheduling may be refused; zero or one fee per side",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, PERCENT], **PAY)
spec("P12", quick=[f"events::{n}" for n in "pay request release cancel refund ask_refund dispute accept resolve".split()],
     bounds="any terms; a remark of two bytes; payments without fees",
     assumptions=[SHIM, SAFE, LEDGER, ROLLBACK, PERCENT], **PAY)
spec("P13", quick=[f"means::{p}::{n}" for p in ("none", "one_each") for n in
                   "pay accept release cancel dispute sender_wins beneficiary_wins".split()],
     bounds=PAY_BOUNDS + "; none or one fee per side; the minimum balance is one unit",
     assumptions=[SHIM, SAFE, LEDGER, PERCENT], **PAY)

# ------------------------------------------------------------------------------------------- communities

MEMBERS = ("memberships, polls, assets and native tokens are models of their interfaces: a pool of memberships with owners and "
           "ranks, polls that are ongoing or not, ledgers with freezes; any operation may be refused where stated")
FRACTION = "`from_rational` is an uninterpreted function of its two arguments; its exact value is sp-arithmetic's business"
COM = dict(crate="com", kani_args=["--no-memory-safety-checks"])
TWO = ("two communities with any ids, states and admins; every kind of origin (root, none, any account, any community voice "
       "or subset of it, any foreign origin)")
VOTES = ("any vote, decision method, rank, 64-bit balances and freezes, any earlier tally; one poll under vote and one other "
         "vote lock of the same account")


def each(mod, names):
    return [f"{mod}::{n}" for n in names.split()]


spec("C01", quick=each("founding", "paid by_root by_others"), bounds=TWO + "; balances below 2^60",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C02", quick=each("voices", "community blocked member"), bounds=TWO, assumptions=[SHIM, SAFE, MEMBERS], **COM)
spec("C03", quick=each("founding", "handover"), bounds=TWO, assumptions=[SHIM, SAFE, ROLLBACK], **COM)
spec("C04", quick=each("founding", "method unknown_method"), bounds=TWO + "; any decision methods before and after",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C05", quick=each("members", "add remove"), bounds=TWO + "; three memberships with any owners, communities and ranks",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK, "communities are not members of communities"], **COM)
spec("C06", quick=each("members", "promote demote"), bounds=TWO + "; three memberships with any owners, communities and ranks",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C07", quick=each("voting", "first_who first_tally again_who again_tally others freeze_refused"), bounds=VOTES,
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C08", quick=each("voting", "taken_back taken_back_tally rank_changed method_changed too_many"), bounds=VOTES,
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C09", quick=each("voting", "first_locks again_locks taken_back_locks two_memberships"), bounds=VOTES,
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C10", quick=each("voting", "unlock unlock_own"), bounds=VOTES, assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("C11", quick=each("tallies", "fresh approval support"),
     bounds="all 32-bit tallies; communities with more than no possible votes",
     assumptions=[SHIM, SAFE, MEMBERS, FRACTION], **COM)
spec("C12", quick=each("voices", "as_account dispatch"), bounds=TWO, assumptions=[SHIM, SAFE, ROLLBACK], **COM)
spec("M01", quick=each("registry", "register by_others names"),
     bounds="any id, admin, payer, decision method and track; names of two bytes; each part of the registration may "
            "fail; one other community",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)
spec("M02", quick=each("registry", "mint mint_refused mint_most"),
     bounds="up to three memberships per call from any first id, and the limit on their number for every number",
     assumptions=[SHIM, SAFE, MEMBERS, ROLLBACK], **COM)


# ------------------------------------------------------------------------------------- assets and runtime

PICK = ("of the runtime's sources, functions, types, implementations and the named associated types of Config "
        "implementations are compiled from /repo (crates/shim-macro/src/pick.rs); FRAME, XCM and pallets from elsewhere are "
        "stand-ins with the same semantics (crates/shim, harness/rt/src/parts.rs); the rest of the runtime is left out")
XCM = ("locations have at most five junctions (XCM allows eight); hashes and 20-byte keys inside of junctions are cut to four "
       "bytes, which nothing looks into")
RUN = dict(crate="rt", kani_args=["--no-memory-safety-checks"])
ORIGINS = ("every kind of origin: root, none, any signer (accounts of communities and of any pallet included), custom origins, "
           "any voice of a community or subset of it, origins from other chains and others")
R = [PICK, SAFE]

spec("I05", quick=each("assets", "payment_ids"), bounds="all 2^64 ids and truncated encodings", assumptions=[SAFE], **RUN)
spec("A01", quick=each("assets", "here sibling network child"), bounds="all asset ids", assumptions=[SAFE, XCM], **RUN)
spec("A02", quick=each("assets", "place0 place1 place2 place3 place4 place5"),
     bounds="all locations of at most five junctions, any number of parents", assumptions=[SAFE, XCM], **RUN)
spec("A03", quick=each("assets", "bytes_here bytes_sibling bytes_network bytes_child bytes_any"),
     bounds="all asset ids; all byte strings of at most 18 bytes", assumptions=[SAFE], **RUN)
spec("R01", quick=each("fees", "small medium"), thorough=each("fees", "large"),
     bounds="amounts and minimum balances below 2^32 (2^60 in the thorough tier); any accounts; two assets", assumptions=R, **RUN)
spec("R02", quick=each("fees", "next_id"), bounds="all blocks, indices and accounts; distinctness for indices below 65536",
     assumptions=R, **RUN)
spec("R03", quick=each("fees", "roles terms"), bounds=ORIGINS, assumptions=R, **RUN)
spec("R04", quick=each("roles", "admins"), bounds=ORIGINS + "; one community with any id, state and admin", assumptions=R, **RUN)
spec("R05", quick=each("roles", "founders"), bounds=ORIGINS, assumptions=R, **RUN)
spec("R06", quick=each("roles", "referenda tracks"), bounds=ORIGINS + "; one track of any origin and one membership of anyone",
     assumptions=R, **RUN)
spec("R07", quick=each("roles", "collective collective_tracks"), bounds=ORIGINS, assumptions=R, **RUN)
spec("R08", quick=each("roles", "proxies non_transfer"), bounds="all kinds of proxies; all calls of balances, assets and proxy, "
     "and one for each other pallet (the filter does not look into those)", assumptions=R, **RUN)
spec("R09", quick=each("roles", "privilege"), bounds=ORIGINS, assumptions=R, **RUN)
spec("R10", quick=each("roles", "lookup"), bounds="all accounts, numbers and 32-byte addresses; one raw and one short address",
     assumptions=R, **RUN)
spec("R11", quick=each("roles", "challenge"), bounds="all block numbers above 4, hashes and challenges; hashes of the last four "
     "blocks are known, those of other blocks are zeroes", assumptions=R, **RUN)
spec("R12", quick=each("roles", "pass"), bounds=ORIGINS, assumptions=R, **RUN)
spec("R13", quick=each("roles", "contracts"), bounds=ORIGINS + "; all calls as in R08", assumptions=R, **RUN)
spec("R14", quick=each("roles", "root_only"), bounds=ORIGINS, assumptions=R + [XCM], **RUN)
spec("X01", quick=each("places", "junction"), bounds="all communities and subsets", assumptions=[SHIM, SAFE], **RUN)
spec("X02", quick=each("places", "accounts0 accounts1 accounts2 accounts3"),
     bounds="all locations of at most three junctions, any number of parents", assumptions=R + [XCM], **RUN)
spec("X03", quick=each("places", "senders"), bounds=ORIGINS, assumptions=R + [XCM], **RUN)
spec("X04", quick=each("places", "reserves0 reserves1 reserves2 reserves3 reserves4"),
     bounds="all senders of at most two junctions, all assets of at most four", assumptions=R + [XCM], **RUN)
spec("X05", quick=each("places", "exempt switched_off") + each("holding", "let_in"), bounds="all locations of at most two junctions; any assets",
     assumptions=R + [XCM], **RUN)
spec("X06", quick=each("places", "acting0 acting1 acting2"), bounds="all locations of at most two junctions", assumptions=R + [XCM], **RUN)
spec("X07", quick=each("places", "executing"), bounds=ORIGINS, assumptions=R + [XCM], **RUN)
spec("X08", quick=each("weighing", "listed described others"), bounds="up to 20 listed assets; all filters; all instructions",
     assumptions=R + [XCM], **RUN)
spec("X09", quick=each("holding", "held0 held1 held2 held3 held4 fees"), bounds="all assets of at most four junctions, any amounts",
     assumptions=R + [XCM], **RUN)


def known_findings():
    path = os.path.join(os.path.dirname(HERE), "known_findings.json")
    return json.load(open(path))["findings"] if os.path.exists(path) else []


NOT_APPLICABLE = {}
