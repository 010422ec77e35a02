"""The properties, in the words of properties.jsonl."""

PROPS = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quantifier},
                  "why_tests_cant": why, "anchors": anchors})


ID = ["common/src/payment_id.rs"]

prop("I01", "Payment ids and 64-bit numbers convert both ways without loss",
     "Every 64-bit number becomes a payment id that converts back to the same number, so different numbers are different "
     "ids. The block number of the id is the upper 32 bits of the number, its extrinsic index the next 16 bits, and its "
     "raw bytes are the number's bytes, least significant first.",
     ["inputs"], "all 64-bit numbers and pairs of them",
     "There are 2^64 numbers; the repository's test tries the largest one.",
     ID, [("conversions between number and id", "impl From<u64> for PaymentId, impl From<PaymentId> for u64, AsRef<[u8]>, from_number, to_number, to_bytes")],
     ["to_number()", "block_number()", "extrinsic_index()", "as_ref()"])

prop("I02", "The text of a payment id is its base58 form and parses back to it",
     "The compact text of every payment id is the base58 encoding (Bitcoin alphabet) of its eight bytes, and the pretty "
     "text is the same with one dash after the fifth character. Either text parses back to the same id.",
     ["inputs"], "all 2^64 ids, both text forms",
     "Ids with leading zero bytes have shorter texts of many shapes, and a test tries two ids.",
     ID, [("rendering", "impl Display for PaymentId"), ("parsing", "impl FromStr for PaymentId")],
     ["Display output", "parse()"])

prop("I03", "Parsing a payment id never panics and rejects foreign characters",
     "Parsing any text as a payment id ends with an id or an error, never a panic, whatever its length, dashes or "
     "characters. Text with characters outside the base58 alphabet (one dash aside), or with more than eleven of them, "
     "is rejected, and the infallible constructor returns the zero id exactly for text that does not parse.",
     ["inputs"], "all texts within the length bound",
     "Panics hide in particular combinations of length, dash position and multi-byte characters.",
     ID, [("parsing", "impl FromStr for PaymentId"), ("infallible constructor", "PaymentId::new")],
     ["parse()", "PaymentId::new"])

prop("I04", "Each accepted text of a payment id denotes exactly that id",
     "A text is accepted exactly if, without its dash, it is base58 for exactly eight bytes, and then it denotes the id of "
     "those bytes. A single dash at any position does not change the result, so no two texts that differ in more than a "
     "dash denote the same id.",
     ["inputs"], "all texts of up to twelve characters and every dash position",
     "Aliases of an id are texts nobody would think of writing in a test.",
     ID, [("parsing", "impl FromStr for PaymentId")], ["parse()"])

prop("I06", "Payment ids issued on chain keep their block, extrinsic and payer",
     "An id issued for a block, an extrinsic index below 65536 and a payer reports exactly that block and index, and its "
     "first two bytes are the payer's. Ids issued in different extrinsics or for payers with different prefixes differ.",
     ["inputs"], "all blocks, extrinsic indices below 65536 and payer prefixes, and pairs of them",
     "Collisions appear only for particular pairs of blocks and indices.",
     ID, [("issuing", "impl From<(u32, u32, &[u8])> for PaymentId"), ("runtime glue", "runtime/kreivo/src/payments.rs, PaymentId::next")],
     ["block_number()", "extrinsic_index()", "equality of ids"])

PAYS = ["pallets/payments/src/lib.rs", "pallets/payments/src/types.rs"]
BAL = "free and held balances of every account per asset"
HIST = "amounts, fees and balances are independent numbers; the tests use one set of them"

prop("P01", "A payment moves exactly amount, incentive and fees into escrow",
     "After a successful payment the beneficiary holds exactly the amount without being able to spend it, and the sender "
     "holds exactly the incentive and the sender's fees, all taken from the sender's spendable balance. The incentive is "
     "the configured percentage of the amount, the terms and parties are on record, and no other balance changed.",
     ["inputs", "states"], "all amounts, balances, fee lists within the bound and fee recipients alike or different", HIST,
     PAYS, [("creating", "pay, create_payment"), ("reserving", "reserve_payment_amount"), ("fee totals", "Fees::summary_for")],
     ["balances", "held balances", "payment record"], [BAL])
prop("P02", "Releasing pays the amount and all fees, and nothing stays held",
     "When the sender releases a payment, the beneficiary can spend the amount less the beneficiary's fees, every fee "
     "recipient has received exactly its fees, and the incentive is back with the sender. No hold of this payment is left, "
     "holds and balances that have nothing to do with it are unchanged, and the payment is finished.",
     ["inputs", "states"], "all amounts, balances, fee lists within the bound", HIST,
     PAYS, [("settling", "release, settle_payment, try_transfer_fees")], ["balances", "held balances", "payment record"], [BAL])
prop("P03", "Cancelling or refunding gives the sender everything back",
     "When the beneficiary cancels a payment, or a requested refund takes place, the sender has amount, incentive and fees "
     "back as spendable balance, every other balance is unchanged, and the payment is off the record. Requesting a refund "
     "moves no money and changes nothing of the terms.",
     ["inputs", "states"], "all amounts, balances, fee lists within the bound", HIST,
     PAYS, [("cancelling", "cancel, cancel_payment"), ("refund request", "request_refund")], ["balances", "held balances", "payment record"], [BAL])
prop("P04", "A resolved dispute splits the escrow as the verdict says",
     "Disputing holds the incentive amount of the beneficiary too. The verdict gives the winner its percentage of the "
     "amount and the other party the rest, the loser's incentive goes to the judge and the winner's returns. Fees are paid "
     "exactly if they are due in disputes, other fees return, and nothing of the payment stays held.",
     ["inputs", "states"], "all verdicts, amounts, balances, fee lists within the bound", HIST,
     PAYS, [("disputing", "dispute_refund"), ("resolving", "resolve_dispute, settle_payment"), ("fees", "Fees::summary_for, try_transfer_fees")],
     ["balances", "held balances", "payment record"], [BAL])
prop("P05", "Only the entitled party can act on a payment",
     "Only the sender can release a payment, ask for its refund or accept a request, only the beneficiary can cancel it or "
     "dispute a refund, and only the dispute resolver can resolve it. Any other caller is refused.",
     ["inputs", "states"], "all callers, in the state in which the call is otherwise possible",
     "A test tries one stranger; the other party is the caller that matters.",
     PAYS, [("origins", "release, request_refund, accept_and_pay, cancel, dispute_refund, resolve_dispute")], ["result of the call"])
prop("P06", "A payment is settled at most once and follows its life cycle",
     "A created payment can be released, cancelled or have its refund asked for; then it can be cancelled or disputed; a "
     "disputed one can only be resolved, and a requested one only accepted. Every other call in every other state, and any "
     "call on a finished or unknown payment, fails.",
     ["histories", "states"], "all pairs of state and call outside the life cycle",
     "There are many more wrong orders of calls than right ones.",
     PAYS, [("state checks", "release, request_refund, accept_and_pay, cancel, dispute_refund, resolve_dispute")], ["result of the call"],
     ["state of a payment"])
prop("P07", "Refunds wait for the buffer period and disputes stop them",
     "A refund asked for at block n is carried out at block n plus the buffer period, in the beneficiary's name, unless the "
     "beneficiary disputes it before that block, which takes it off the schedule. Disputes from that block on are refused, "
     "and a refund whose date cannot be computed is refused.",
     ["histories", "inputs"], "all block numbers for request and dispute",
     "The boundary block and the far end of the number range are not what tests pick.",
     PAYS, [("scheduling", "request_refund, dispute_refund")], ["scheduled tasks", "result of the call"], ["scheduled cancellations"])
prop("P08", "What happens to one payment leaves all others alone",
     "Paying, requesting, releasing, cancelling, refunding or resolving one payment changes neither terms, state nor "
     "parties of any other payment, whether or not it has the same parties, and no balance in another asset.",
     ["states", "inputs"], "any other payment in any state between the same, swapped or other parties",
     "The tests have one payment at a time.",
     PAYS, [("records by sender and id", "Payment, PaymentParties")], ["payment records", "balances"])
prop("P09", "A payment id in use is not taken over by another payment",
     "While a payment is in progress no other payment or request that is issued with the same id succeeds, or it leaves the "
     "recorded terms and parties of the first one unchanged, whoever sends or receives it.",
     ["inputs", "states"], "any parties and terms of the second payment",
     "Ids only collide in batches or with a faulty id source, which no test has.",
     PAYS, [("creating", "create_payment")], ["payment records"])
prop("P10", "A payment request moves money only when the sender accepts it",
     "Requesting a payment moves nothing. Accepting it takes amount and sender fees from the sender and nothing else, gives "
     "the beneficiary the amount less the beneficiary's fees and each recipient its fees, and finishes the payment.",
     ["inputs", "states"], "all amounts, balances, fee lists within the bound", HIST,
     PAYS, [("requesting", "request_payment, create_payment"), ("accepting", "accept_and_pay, try_transfer_fees")],
     ["balances", "held balances", "payment record"], [BAL])
prop("P11", "A payment call fails if any of its money movements is refused",
     "If the ledger refuses any single hold, release or transfer that a payment call needs, or the scheduler refuses a "
     "refund's entry, the call as a whole fails, so it is undone and never leaves a payment half settled.",
     ["faults", "inputs"], "every subset of refused operations",
     "Refusals in the middle of a settlement need a ledger that misbehaves on purpose.",
     PAYS, [("error propagation", "reserve_payment_amount, cancel_payment, settle_payment, try_transfer_fees, accept_and_pay")],
     ["result of the call"])
prop("P12", "Every payment call reports one event with what happened to which payment",
     "A successful call reports exactly one event of the kind that belongs to it (created, released, cancelled, refund "
     "requested, refunded, disputed, requested, completed, resolved) carrying the payment's id, and where applicable its "
     "asset, amount, remark and the refund's due block.",
     ["inputs"], "all terms, each call", "Tests compare events for one payment; wrong fields coincide with defaults.",
     PAYS, [("events", "deposit_event calls of every extrinsic")], ["events"])

prop("P13", "Who has the means can pay, and what is in escrow can always be settled",
     "A sender with amount, incentive, fees and one minimum balance can pay, and one with exactly amount and fees can accept a "
     "request. A payment in escrow can be returned whatever else the beneficiary has. It can be released, and resolved by any "
     "verdict, as long as both keep their accounts and the beneficiary's fees are covered. A beneficiary with the incentive "
     "can dispute.",
     ["states", "inputs"], "all amounts, fees and balances that suffice, down to the last unit",
     "Tests give every account plenty.",
     PAYS, [("demands on balances", "reserve_payment_amount, cancel_payment, settle_payment, try_transfer_fees, accept_and_pay, dispute_refund")],
     ["result of the call"], [BAL])

COMS = ["pallets/communities/src/lib.rs", "pallets/communities/src/functions.rs", "pallets/communities/src/types.rs"]
ORIG = ["pallets/communities/src/origin.rs"]
MANS = ["pallets/communities-manager/src/lib.rs"]

prop("C01", "Creating a community takes a free id and admin, and costs the deposit",
     "An account creates a community if neither the id is taken nor the proposed admin administers one, and it pays the "
     "deposit, which goes to the treasury; root creates communities for free and no other origin can. The new community is "
     "active, decides by membership, is administered by the given origin and is reported by one event, while other communities "
     "and balances stay as they were.",
     ["inputs", "states"], "all ids, admins, callers and balances, next to two other communities in any state",
     "Tests create a few communities with fixed ids and admins.",
     COMS, [("creation", "fn create, fn register")], ["result of the call", "registered communities", "balances", "events"])
prop("C02", "Only the voice or admin of an active community acts for it",
     "An origin acts for a community exactly if it is that community's voice (or part of it) or its admin, and the community "
     "is active; root and unsigned origins never do. Checks for members let exactly the accounts with a membership of that very "
     "community pass, and refused origins are handed back unchanged.",
     ["inputs", "states"], "all origins, two communities in any state with any admins, any memberships",
     "Confusions between communities need particular combinations of admins, voices and states.",
     ORIG + COMS, [("origin checks", "EnsureCommunity, EnsureMember"), ("blocking", "fn force_state")],
     ["accepted or refused origin"])
prop("C03", "A community is handed over by its admin to an origin without one",
     "Exactly the current admin of an active community can name a new admin, who must not administer another community. Then "
     "the new admin administers the community, the former does not, an event reports it, and other communities keep their "
     "admins.",
     ["inputs", "states"], "all origins before and after, two communities in any state",
     "Taking over another community's admin needs two communities and a clash of origins.",
     COMS, [("handover", "fn set_admin_origin")], ["admin of each community", "events"])
prop("C04", "A community chooses its own decision method only",
     "The decision method of a community changes exactly when its own voice or admin, while it is active, asks for it; the "
     "methods of other communities, existing or not, stay as they are. Choosing an asset that does not exist yet creates it "
     "for the pallet with the given minimum vote, and the change is reported by one event.",
     ["inputs", "states"], "all origins, decision methods and ids, two communities in any state",
     "Tests set the method with the right origin; the wrong one needs a second community.",
     COMS, [("decision method", "fn set_decision_method")], ["decision method of each community", "created asset", "events"])
prop("C05", "Members join from the community's pool and leave by their own membership",
     "A community that is active adds a member as long as it has a membership to give; exactly one membership of its pool goes "
     "to the account. It removes a member only by naming a membership which that account has in that community, which then "
     "returns to the pool; no other membership changes, and one event names account and membership.",
     ["inputs", "states"], "all origins, accounts and memberships; any distribution of three memberships over two communities",
     "Naming somebody else's membership is not something a test does.",
     COMS, [("members", "fn add_member, fn remove_member")], ["owner and community of each membership", "events"])
prop("C06", "Ranks change one step at a time, by the member's own community",
     "Promoting or demoting changes the rank of the named membership by one within 0 to 255, only on behalf of the active "
     "community the membership belongs to. No other membership changes and one event reports the rank it has now.",
     ["inputs", "states"], "all origins, memberships and ranks", "Tests look at one membership in the middle of the range.",
     COMS, [("ranks", "fn promote, fn demote")], ["rank of each membership", "events"])
prop("C07", "A vote counts once per membership, for entitled voters and covered votes",
     "A vote is accepted exactly if the caller has the membership, the poll is ongoing and belongs to the membership's "
     "community, the vote is of the kind and at least the size the decision method asks for, and the tokens voted with are "
     "there. The tally then counts the latest vote of the membership (one, its rank, or the amount, saturating), everything "
     "else in the tally is unchanged, and one event reports the vote.",
     ["inputs", "states"], "all votes, methods, ranks, balances, tallies and earlier votes",
     "Replacing a vote after the membership changed hands, or votes at the end of the number range, are rare states.",
     COMS, [("voting", "fn vote, try_vote, Tally::add_vote"), ("weights", "VoteWeight conversions")],
     ["result of the call", "tally of the poll", "events"])
prop("C08", "A vote taken back is taken out of the tally completely",
     "Exactly the holder of a membership that voted can take the vote back while the poll is ongoing. The tally then is what "
     "it would be without the vote, the vote is forgotten, and one event reports it.",
     ["inputs", "states"], "all votes, methods, ranks and tallies, and changes of rank or method in between",
     "What was added must equal what is removed, even if rank or method changed meanwhile.",
     COMS, [("removal", "fn remove_vote, try_remove_vote, Tally::remove_vote")], ["result of the call", "tally of the poll"])
prop("C09", "Tokens voted with are frozen exactly as long and as far as votes need",
     "After any vote or removal of a vote, each account has frozen, per token, exactly the largest amount any of its standing "
     "votes was cast with. A replaced or removed vote no longer binds whoever cast it.",
     ["inputs", "states"], "all votes, amounts and earlier locks, votes replaced by other holders of the membership",
     "Locks of several polls, tokens and holders interact.",
     COMS, [("locks", "fn update_locks")], ["frozen balance per account and token"])
prop("C10", "Vote locks are released by their owner once the poll is over",
     "An account releases its lock on a poll exactly if it has one and the poll is not ongoing. Afterwards exactly the largest "
     "remaining lock of the token is frozen, and locks of other polls and accounts stay.",
     ["inputs", "states"], "all locks, poll states and callers", "Locks on several polls with different tokens interact.",
     COMS, [("unlocking", "fn unlock")], ["frozen balance", "recorded locks"])
prop("C11", "Approval and support are the proper parts of the votes",
     "Approval of a poll is the part of ayes in all counted votes (none without votes), and support the part of bare ayes in "
     "all votes the community's decision method allows for: its members, the sum of ranks, or the issuance of the token. "
     "Neither panics for any tally.",
     ["inputs"], "all tallies, decision methods, numbers of members, ranks and issuances",
     "Overflow needs more votes than tests cast.",
     ["pallets/communities/src/impls.rs"] + COMS[2:], [("tally", "impl VoteTally for Tally")], ["approval()", "support()"])
prop("C12", "A community acts with its own account and nobody else's",
     "Calls made on behalf of a community are dispatched once, signed by that community's account, with the call's own "
     "outcome, and only for origins acting for it. Origins that sign as a community yield the account of exactly the "
     "community that speaks; if a particular community is demanded, no other passes.",
     ["inputs", "states"], "all origins and calls, two communities in any state",
     "Tests use one community, so any account derivation looks right.",
     ORIG + COMS, [("dispatch", "fn dispatch_as_account"), ("signing", "AsSignedByCommunity, AsSignedByStaticCommunity")],
     ["signer of the dispatched call", "result of the call"])
prop("M01", "Registering a community sets up all of its parts or none",
     "A registration succeeds exactly if id and admin are free, the name is text, the deposit is paid (root pays none), and "
     "every part can be set up. Then the community is active with the given admin and decision method, owns a collection for "
     "its memberships and a referendum track of its voice (the given one, or the usual one with its name), and is inducted "
     "into the collective; otherwise no event is reported.",
     ["inputs", "faults"], "all ids, admins, payers, methods, tracks, and failures of each part",
     "Failing parts and clashing ids need prepared surroundings.",
     MANS, [("registration", "fn register, fn do_register, fn default_tack")], ["result of the call", "community, collection, track", "events"])
prop("M02", "Memberships are created in order, priced, and counted exactly",
     "Creating memberships mints as many as asked for (at most 1024, and no more than ids are left) with consecutive ids for "
     "the manager, each offered at the given price to anyone, and reports their exact number. Others cannot create any, and if "
     "minting or pricing one fails the call fails.",
     ["inputs", "faults"], "all first ids, prices and up to three memberships, and failures at each of them",
     "The end of the id range is not reached in tests.",
     MANS, [("minting", "fn create_memberships")], ["minted items", "events"])

AST = ["common/src/multilocation_asset_id.rs"]
RT = "runtime/kreivo/src/"
CFG = "Configurations compose generic building blocks; tests call the composed pallets with a few origins."

prop("I05", "Payment ids are stored as the eight bytes of their number",
     "The encoding of a payment id is the eight bytes of its number, least significant first, and decoding them yields the "
     "same id. Fewer bytes are refused.",
     ["inputs"], "all 2^64 ids", "Tests encode one id.",
     ID, [("encoding", "derives and layout of PaymentId")], ["encode()", "decode()"])
prop("A01", "An asset id stands for one location and is found again from it",
     "An asset id of this chain stands for the index in the assets pallet here, one of a sibling for the index in its pallet, "
     "and an external one for the network, with the parachain's pallet and index if it has one. Reading that location gives "
     "the same asset id.",
     ["inputs"], "all asset ids", "Tests convert a few assets.",
     AST, [("conversion", "impl MaybeEquivalence<Location, FungibleAssetLocation> for AsFungibleAssetLocation")],
     ["convert()", "convert_back()"])
prop("A02", "Locations of foreign chains are read as assets without panic or confusion",
     "Reading any location as an asset ends with an asset id or none, never a panic, whatever numbers it contains. No two "
     "locations are read as the same asset id.",
     ["inputs"], "all locations of up to five junctions with any numbers in them",
     "Other chains choose the locations; tests use well-formed ones with small numbers.",
     AST, [("reading", "AsFungibleAssetLocation::convert, impl TryFrom<NetworkId>")], ["convert()"])
prop("A03", "Asset ids are written as bytes without loss or ambiguity",
     "The encoding of an asset id is the number of its kind followed by network, parachain, pallet and index in this order, "
     "and no longer than stated. Any bytes that decode to an asset id are its encoding.",
     ["inputs"], "all asset ids, and all byte strings of up to 18 bytes",
     "Different ids with the same bytes would share balances; tests encode none.",
     AST, [("encoding", "derives and layout of FungibleAssetLocation, NetworkId, Para")], ["encode()", "decode()", "max_encoded_len()"])

PAYRT = [RT + "payments.rs"]
prop("R01", "Payments on Kreivo cost 1 % and 3 %, and nothing for communities",
     "A sender who is not a community pays one percent of the amount and a beneficiary who is not a community three percent, "
     "both rounded down but at least the asset's minimum balance. The fees are mandatory and go to the treasury; the account "
     "of a community pays none.",
     ["inputs"], "all amounts and minimum balances within the bound, any accounts and assets",
     "Tests pay round amounts between two ordinary accounts.",
     PAYRT, [("fees", "KreivoFeeHandler::apply_fees")], ["fees returned by apply_fees"])
prop("R02", "Payments get their id from block, extrinsic and beneficiary",
     "Within an extrinsic a payment gets the id of the current block, the extrinsic's index and the first bytes of the "
     "beneficiary's account; outside of one it gets none. Payments to different beneficiaries' prefixes or in different "
     "extrinsics never get the same id.",
     ["inputs", "states"], "all blocks, extrinsic indices below 65536 and accounts",
     "Collisions need particular pairs of extrinsics.",
     PAYRT + ID, [("issuing", "PaymentId::next")], ["returned id"])
prop("R03", "On Kreivo accounts and communities pay, and root settles disputes",
     "Payments are made by accounts, and by communities from their own account; beneficiaries act by signing, and only root "
     "settles disputes, on behalf of the treasury. The incentive held back is ten percent and refunds can be disputed for at "
     "least 14400 blocks.",
     ["inputs"], "all origins", CFG, PAYRT, [("roles", "impl pallet_payments::Config for Runtime")], ["accepted origins and accounts"])
COMRT = [RT + "communities/mod.rs", RT + "communities/governance.rs", RT + "communities/memberships.rs"]
prop("R04", "Only its voice, admin or own account runs a community on Kreivo",
     "Administration and management of members accept exactly the voice of an active community, its admin, and the account of "
     "that community. The accounts of other pallets, however similar, run no community.",
     ["inputs", "states"], "all origins and accounts, a community in any state with any admin",
     "Accounts of other pallets look like those of communities, and tests use ordinary ones.",
     COMRT, [("administration", "AdminOrigin, MemberMgmtOrigin, EnsureCommunityAccount, AccountToCommunityId")],
     ["community returned for the origin"])
prop("R05", "Communities are founded through the manager, for half a unit or by root",
     "Communities are not created directly; through the manager root founds them for free and accounts pay half a unit to the "
     "treasury. Only root and the memberships track create memberships, which belong to the treasury in collection 0, and only "
     "root creates or forces collections.",
     ["inputs"], "all origins", CFG, COMRT, [("founding", "CreateOrigin, RegisterOrigin, CreateMembershipsOrigin, pallet_nfts origins")],
     ["accepted origins and deposits"])
prop("R06", "Members propose to their own community only",
     "A referendum is proposed by root, or by a member of the very community on whose track it is decided. Only root cancels "
     "or kills referenda and adds tracks; a track is changed by the origin it belongs to and no other.",
     ["inputs", "states"], "all origins, tracks and memberships",
     "Proposing to another community's track needs two communities.",
     COMRT, [("proposals", "EnsureCommunityMember"), ("tracks", "EnsureOriginToTrack")],
     ["accepted origins"])
COLRT = [RT + "collective/mod.rs", RT + "collective/governance.rs", RT + "collective/tracks.rs", RT + "governance/origins.rs"]
prop("R07", "The collective is managed by root and each origin has its own track",
     "Members of the collective are added by no origin, and promoted, demoted, removed and exchanged by root alone. "
     "Cancelling, killing and creating memberships have tracks of their own, root has track 0 and other origins have none; "
     "every origin's track exists, with ids in order and approval never below its floor.",
     ["inputs"], "all origins and all tracks", CFG, COLRT, [("collective", "impl pallet_ranked_collective::Config"), ("tracks", "TracksInfo")],
     ["accepted origins", "track_for()", "tracks()"])
prop("R08", "A proxy makes the calls of its kind, and wider proxies all of narrower ones",
     "Each kind of proxy makes exactly the calls its kind is for, and a proxy not meant for transfers never pays or sends "
     "assets away. Whatever a kind of proxy can do, every kind that counts as wider can do too.",
     ["inputs"], "all kinds of proxies and pairs of them, all calls of all pallets",
     "There are seven kinds of proxies and some hundred calls.",
     [RT + "impls.rs"], [("filter", "impl InstanceFilter<RuntimeCall> for ProxyType")], ["filter()", "is_superset()"])
prop("R09", "Root outranks every origin, and no other origin outranks another",
     "Comparing two origins yields equal for the same one, greater for root against any other, and no order otherwise.",
     ["inputs"], "all pairs of origins", CFG, [RT + "impls.rs"], [("comparison", "EqualOrGreatestRootCmp")], ["cmp_privilege()"])
prop("R10", "Addresses are accounts or numbers of communities",
     "An account is its own address, a community's number is the address of its account, and other forms of addresses are "
     "unknown. The address of an account leads back to it.",
     ["inputs"], "all addresses", CFG, [RT + "configuration/system_support.rs"], [("lookup", "CommunityLookup")], ["lookup()", "unlookup()"])
prop("R11", "A passkey challenge is the hash of one of the last three blocks",
     "A challenge is accepted exactly if it is the hash of the block it names and that block is one of the last three, not "
     "the current or a future one.",
     ["inputs", "states"], "all block numbers, hashes and challenges",
     "Challenges for blocks that do not exist yet have a hash, too: zeroes.",
     [RT + "configuration/system_support.rs"], [("challenge", "UnincludedBlockHashChallenger::check_challenge")], ["check_challenge()"])
prop("R12", "Registering a pass account costs a deposit, except for communities and root",
     "An account registers for the existential deposit, paid to the treasury; communities and root register for free, and no "
     "other origin does.",
     ["inputs"], "all origins and user ids", CFG, [RT + "configuration/system_support.rs"], [("registration", "impl pallet_pass::Config")],
     ["accepted origins and deposits"])
prop("R13", "Contracts are uploaded by root and made by two chosen communities",
     "Only root uploads code; root and the two chosen communities make contracts, on behalf of the treasury or their own "
     "account. Contracts call nothing of the runtime but transfers of the native token.",
     ["inputs"], "all origins and calls", CFG, [RT + "contracts.rs"], [("roles", "impl pallet_contracts::Config")],
     ["accepted origins", "call filter"])
prop("R14", "Privileged operations of the runtime are root's",
     "Message queues, scheduling, preimages, XCM, forced operations on assets and rejecting of treasury proposals accept root "
     "and nobody else; nobody creates assets or spends from the treasury directly. Collators are managed by root and the voice "
     "of the relay chain's staking admin.",
     ["inputs"], "all origins, and all locations of up to two junctions they may speak from", CFG,
     [RT + "lib.rs", RT + "configuration/monetary_stuff.rs", RT + "xcm_config.rs"],
     [("roles", "Config implementations of queue, scheduler, preimage, treasury, assets, XCM and collators")], ["accepted origins"])
XC = [RT + "xcm_config.rs", RT + "xcm_config/communities.rs"]
prop("X01", "A community appears to other chains as the plurality of its number",
     "The voice of a community is the plurality with its number, whole, or restricted to members or a fraction as the origin "
     "is, and its location is that junction here. Subsets without such a form have no location and the origin is handed back.",
     ["inputs"], "all communities and subsets", "Tests convert one community.",
     ["pallets/communities/src/origin.rs"], [("junction", "TryFrom<RawOrigin> for Junction, TryConvert for RawOrigin")],
     ["junction and location of an origin"])
prop("X02", "A location owns the account of what it stands for and no other",
     "The relay chain, a sibling, a community's plurality and an account here or on the relay chain own the account derived "
     "from exactly them; all other locations own none. In particular a plurality with a number no community can have owns no "
     "account.",
     ["inputs"], "all locations of up to three junctions with any contents",
     "Numbers outside of the communities' range are not what tests try.",
     XC, [("accounts", "LocationToAccountId, PluralityConvertsToCommunityAccountId, AccountId32FromRelay")], ["convert_location()"])
prop("X03", "Only communities send messages, each in its own name",
     "Messages to other chains are sent by the voice of a community or the account of a community, from the location of that "
     "community. No other origin, and no account of another pallet, sends messages.",
     ["inputs"], "all origins and accounts", "Accounts of other pallets look like those of communities.",
     XC, [("senders", "CanSendXcmMessages, SignedByCommunityToPlurality")], ["location of the sender"])
prop("X04", "Assets are credited only as sent by the chain that keeps their reserve",
     "An asset counts as backed exactly if its sender is its own chain, or if the sender is Asset Hub and the asset lives there "
     "or on Polkadot. Another chain cannot have Asset Hub's assets credited.",
     ["inputs"], "all senders of up to two junctions and assets of up to four, with any contents",
     "An untrusted sender is not what tests set up.",
     XC, [("reserves", "Reserves, ReserveAssetsFrom, ReserveForeignAssetsFrom, matches_prefix")], ["contains()"])
prop("X05", "Nothing is executed for free, teleported or disguised beyond what is meant",
     "Messages run if they were or are paid for. Only the relay chain and its executive body execute messages without paying, "
     "and only when they say so. Teleports in either direction, messages "
     "for local execution and posing as another location are switched off.",
     ["inputs"], "all locations of up to two junctions, any assets", CFG,
     XC, [("barrier", "Barrier, ParentOrParentsExecutivePlurality"), ("switched off", "XcmExecuteFilter, XcmTeleportFilter, IsTeleporter, Aliasers")],
     ["contains()"])
prop("X06", "A message acts as where it comes from, never as root",
     "A message acts as the account its location owns, natively as the relay chain, a sibling or a local account, or as its "
     "plain location, depending on what it asks for. No message acts as root or as a community's voice.",
     ["inputs"], "all locations of up to two junctions and all kinds of origins asked for", CFG,
     XC, [("acting", "XcmOriginToTransactDispatchOrigin")], ["convert_origin()"])
prop("X07", "Who moves assets to other chains does so from their own account",
     "Accounts and the voices of communities move assets from their own location, and that location owns exactly the account "
     "of the signer or the community. No other origin moves any.",
     ["inputs"], "all origins", CFG, XC, [("movers", "CanExecuteXcmTransactions")], ["location of the origin", "convert_location()"])
prop("X08", "A message weighs what it may do",
     "An instruction over assets weighs as many times the weight of one asset as the assets it lists, or may match: as many as "
     "said but at most a hundred, one for all of a fungible asset, and 128 for all of a unique one. "
     "Depositing is capped at a thousandth of a second. Instructions that are not supported weigh too much to run; every other "
     "takes some time and fits into a block.",
     ["inputs"], "up to 20 listed assets, all filters, all instructions", CFG,
     ["runtime/kreivo/src/weights/xcm/mod.rs"], [("weights", "KreivoXcmWeight")], ["weight of the instruction"])
prop("X09", "Every asset from elsewhere is kept as one local asset, or not at all",
     "The relay chain's tokens are the native ones. An asset with a local identifier is kept as that one, in the same amount; "
     "nothing else is kept, least of all unique assets. Other than with native tokens, execution is paid for only with assets "
     "of the Asset Hub and of Polkadot. The treasury gets what is paid. Both kinds of assets are kept in the account of their "
     "owner's location.",
     ["inputs"], "all assets of up to four junctions, any amounts", CFG,
     XC, [("assets", "AssetTransactors, Traders, LocationConvertedConcreteId")], ["matches_fungible()", "matches_fungibles()", "receiver's account"])
