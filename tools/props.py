"""Property texts. gen.py writes properties.jsonl and MANIFEST.json from this table and the rule registry."""
PROPS, NA = [], []
TECH = "static: gated value-flow and must-fact rules over the syntax trees of the current sources"


def P(id, title, statement, over, text, why, files, mech, state=(), note=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, state=state, note=note,
                      observe=list(observe)))


def N(id, title, statement, over, text, why, files, mech, reason, state=()):
    P(id, title, statement, over, text, why, files, mech, state)
    NA.append((id, reason))


BT = "crates/bitcoin/src/"

P("B01", "An inclusion proof is accepted only if it commits to that very transaction",
  "A partial transaction proof is accepted only when its block lists a non-zero and plausible (at most 16666) number of transactions, the partial tree consumes every supplied hash and every "
  "flag bit except byte padding, and exactly the flagged leaf equals the double-SHA256 id of the supplied transaction computed within its declared encoded length. "
  "The result reports the root, block hash, transaction count, transaction and leaf position that were actually proved.",
  "inputs", "every block header, transaction, hash list, flag list, declared transaction count and encoded length",
  "The tests verify a few honest proofs and some mutated ones; a forged proof is one of unboundedly many trees.",
  BT + "merkle.rs " + BT + "types.rs", [("partial proof verification", BT + "types.rs verify_proof"), ("partial tree traversal", BT + "merkle.rs")])
P("B02", "Partial Merkle tree traversal visits the tree exactly as Bitcoin specifies",
  "Walking a partial tree consumes one flag bit per visited node and one hash per leaf or unflagged node, fails when either runs out, descends left then right only into nodes inside the width "
  "of their level, and combines children with double SHA-256 of left followed by right, duplicating the left child where no right child exists. "
  "Only a flagged leaf is reported as the match, with its own position and the hash consumed for it.",
  "inputs", "every partial tree, of any height and width, well formed or not",
  "The tests walk a handful of trees; off-by-one errors at odd widths, at the last leaf or on exhausted input show only for particular shapes.",
  BT + "merkle.rs " + BT + "utils.rs", [("recursive traversal", BT + "merkle.rs traverse_and_extract"), ("level width and height", BT + "merkle.rs MerkleTree")])
P("B03", "Merkle proofs and roots built from a block are the ones a verifier accepts",
  "The root of a block is computed over its transaction ids in order, pairing neighbours and duplicating the last one of an odd level; a built partial proof emits, depth first, one flag per "
  "visited node (set iff a selected transaction lies below it) and one hash per leaf or unselected subtree, for the selected transactions and no others. "
  "Building fails rather than producing a proof with missing hashes.",
  "inputs", "every number of transactions and every selection of them", "The tests build proofs for a few block sizes.",
  BT + "merkle.rs " + BT + "types.rs", [("root computation", BT + "merkle.rs compute_root"), ("proof building", BT + "merkle.rs traverse_and_build")])
P("B04", "Block header parsing reads the wire format and rejects inconsistent headers",
  "Eighty bytes are read as little-endian version, previous-block hash, Merkle root, time, compact target and nonce, and the header's hash is the double SHA-256 of the bytes it was parsed from. "
  "Input with missing bytes or a compact target that does not denote a 256-bit target is rejected, decoding a stand-alone header rejects any length but eighty, and the version check accepts versions from 4 on and no others.",
  "inputs", "every byte string offered as a header", "Only a few mainnet headers are parsed by tests.",
  BT + "parser.rs " + BT + "types.rs", [("header parser", BT + "parser.rs parse_block_header"), ("header decoding and version check", BT + "types.rs BlockHeader")])
P("B05", "Block headers serialise to the eighty bytes whose double SHA-256 is their hash",
  "A block header serialises as version, previous hash, Merkle root, time, compact target and nonce, in that order, little endian, and nothing else; its hash is the double SHA-256 of these bytes, so parsing the result gives the header back.",
  "inputs", "every header value", "Round trips are tested for single samples.",
  BT + "formatter.rs " + BT + "types.rs", [("header formatter", BT + "formatter.rs")])
P("B06", "Compact targets convert to and from 256-bit targets as Bitcoin does",
  "Decoding a compact target shifts its 23-bit mantissa by the exponent byte and rejects negative encodings and those overflowing 256 bits; encoding a target yields its canonical compact form, "
  "with the sign bit avoided by moving to the next exponent, so that decode(encode(t)) keeps the leading 24 bits (23 where the sign bit intervenes) of t.",
  "inputs", "all 2^32 compact values and all 256-bit targets", "The tests check a table of examples; boundary exponents (0 to 3, 32 to 34) and sign-bit mantissas are sampled only in part.",
  BT + "math.rs " + BT + "types.rs " + BT + "parser.rs", [("compact conversion", BT + "math.rs GetCompact"), ("target parsing", BT + "parser.rs")])
P("B07", "Variable-length integers are written shortest-first and read in full range",
  "An integer below 0xfd is written as one byte, one up to 0xffff as 0xfd and two bytes, one up to 0xffffffff as 0xfe and four bytes, any other as 0xff and eight bytes, all little endian, and reading "
  "consumes exactly the bytes the prefix announces and returns that value. A length-prefixed vector is that count followed by that many elements, in both directions.",
  "inputs", "every 64-bit value, every vector length, every truncated buffer", "Tests sample lengths far from the four class boundaries; the boundaries 0xffff and 0xffffffff were in fact wrong.",
  BT + "formatter.rs " + BT + "parser.rs", [("compact size writer", BT + "formatter.rs CompactUint"), ("compact size reader", BT + "parser.rs CompactUint")])
P("B08", "Parsing a transaction reads each field once, in wire order, within bounds",
  "A transaction is read as version (1 or 2), optional segwit flag, inputs (outpoint, script, sequence), outputs (64-bit value, script), one witness stack per input when flagged, and lock time, each from the bytes directly after the previous field, and the number of bytes consumed is reported exactly. "
  "A null outpoint makes a coinbase input, whose script starts with the block height in version 2 transactions. Truncated input, other versions or flags, a flag without any witness, a null outpoint with an index, and output scripts over 10000 or coinbase scripts over 100 bytes are rejected.",
  "inputs", "every byte string", "Tests parse a dozen fixed transactions.",
  BT + "parser.rs", [("transaction parser", BT + "parser.rs"), ("byte cursor", BT + "parser.rs BytesParser")])
P("B09", "Transactions serialise to the Bitcoin wire format, inverse to parsing",
  "Serialising a transaction emits version, marker and flag only when some input carries a witness, the counted inputs and outputs with their outpoint, script, sequence and value, the witness stacks of every input when flagged, and the lock time, all little endian; "
  "nothing a transaction contains is dropped, added or reordered.",
  "inputs", "every transaction value, with and without witnesses, coinbase inputs and either lock-time kind", "Round trips are tested for a few samples.",
  BT + "formatter.rs " + BT + "types.rs " + BT + "script.rs", [("formatters", BT + "formatter.rs")])
P("B10", "A transaction id commits to the whole transaction except its witnesses",
  "A transaction's id is the double SHA-256 of its serialisation without witness data; the bounded variant gives the same id and fails instead of hashing when the serialisation would exceed the declared length. "
  "The size used for that bound is the length of exactly that serialisation.",
  "inputs", "every transaction and every declared length", "Ids are compared for a few known transactions.",
  BT + "types.rs " + BT + "formatter.rs " + BT + "utils.rs", [("transaction id", BT + "types.rs tx_id"), ("bounded writer", BT + "formatter.rs")])
P("B11", "The next difficulty target follows Bitcoin's retarget rule",
  "The new target is the previous target multiplied by the elapsed time of the period and divided by two weeks, with the elapsed time clamped between a quarter and four times two weeks, and never exceeds the network's maximum target.",
  "inputs", "every previous target and every pair of timestamps", "Tests replay a couple of retargets; clamping and capping happen only at extremes.",
  BT + "pow.rs", [("retarget computation", BT + "pow.rs calculate_next_work_required")])
P("B12", "Untrusted Bitcoin bytes can never crash the chain",
  "Parsing or verifying attacker-supplied headers, transactions, scripts and proofs returns an error for malformed input and never indexes out of bounds, unwraps a failure, over-allocates from a declared length or overflows.",
  "inputs", "every byte string and every proof", "Tests feed well-formed inputs and few truncated ones; this property failed on the pinned commit for input scripts with lying lengths.",
  BT + "parser.rs " + BT + "merkle.rs " + BT + "script.rs " + BT + "types.rs", [("bounds-checked cursor", BT + "parser.rs BytesParser"), ("error returns", BT + "error.rs")])
P("B13", "Addresses and output scripts correspond one to one for the supported templates",
  "P2PKH, P2SH, P2WPKH and P2WSH outputs yield exactly the address whose hash they carry, an address yields exactly its template script, and any other script, however close in shape or length, yields no address.",
  "inputs", "every script, witness and address payload", "Tests check one sample of each template.",
  BT + "address.rs " + BT + "script.rs " + BT + "types.rs", [("template recognition", BT + "script.rs is_p2*"), ("address payload", BT + "address.rs")])
P("B14", "Op-return data comes only from a well-formed op-return script",
  "Op-return data is reported only for a script that begins with the op-return opcode and a direct push whose declared length equals the data that follows, and building one pushes exactly the given data, so that extraction returns what was embedded.",
  "inputs", "every script and every data length", "Tests use one 32-byte example.",
  BT + "script.rs " + BT + "types.rs", [("op-return recognition and construction", BT + "script.rs op_return")])
P("B15", "Bitcoin hashes keep their byte order through every representation",
  "A 256-bit Bitcoin hash is stored little endian, displayed and parsed big endian as hex, converts losslessly in both directions, and the Merkle step hashes the stored bytes of left followed by right.",
  "inputs", "every 32-byte value and hex string", "Single samples only.",
  BT + "types.rs " + BT + "utils.rs", [("hash type", BT + "types.rs H256Le")])
P("B16", "Coinbase transactions are recognised and built exactly as Bitcoin defines them",
  "A transaction is a coinbase iff it has exactly one input and that input spends the null outpoint; a generated coinbase carries the minimally encoded block height, pays the given reward to the given address and optionally commits to a witness root.",
  "inputs", "every transaction and every height", "Tests look at one real coinbase.",
  BT + "types.rs " + BT + "script.rs", [("coinbase test", BT + "types.rs is_coinbase"), ("height encoding", BT + "script.rs height")])
P("B17", "Deposit addresses derive deterministically from the vault key and the request",
  "A deposit key is the vault's public key multiplied by a secret obtained by hashing that key together with the unique request identifier, and the address paid to is the hash of that derived key, so two requests never share an address and only the vault can spend.",
  "inputs", "every public key and secure identifier", "One derivation vector is tested.",
  BT + "address.rs", [("key derivation", BT + "address.rs PublicKey")])
P("B18", "Test block and transaction builders produce what they are told to",
  "The block builder mines a header that claims the given target, commits to the ids of the block's transactions in order and hashes below that target; each builder method sets exactly the field it names to the given value. "
  "The coinbase is placed first, and every other field keeps its value.",
  "inputs", "every transaction list, target and setter argument", "Builders are exercised only along a few fixed call chains.",
  BT + "types.rs " + BT + "utils.rs", [("block builder", BT + "types.rs BlockBuilder"), ("transaction builder", BT + "types.rs TransactionBuilder")])
P("B19", "Estimated transaction sizes follow Bitcoin's component sizes and round up",
  "The estimated virtual size of a transaction with given numbers of inputs and outputs is the sum of the weights of its header, of every input of its script type and of every output kind, divided by four and rounded up. "
  "Length prefixes in it count one, three or five bytes (integers) and one, two, three or five bytes (script pushes) according to the class of the length.",
  "inputs", "every input and output count and every length", "Only small examples are sampled.",
  BT + "utils.rs", [("size computation", BT + "utils.rs virtual_transaction_size"), ("prefix sizes", BT + "utils.rs var_int_size")])
P("B20", "Merkle proofs and blocks keep their content through their wire format",
  "A Merkle proof is read as header, transaction count, counted hashes and counted flag bytes, each taken once and in order, and written in the same layout with flag i in bit i mod 8 of byte i div 8. "
  "A block is written as its header followed by its counted transactions.",
  "inputs", "every proof and block value, every truncated buffer", "One real proof is parsed and one generated proof is round-tripped.",
  BT + "merkle.rs " + BT + "types.rs " + BT + "parser.rs", [("proof codec", BT + "merkle.rs MerkleProof"), ("block writer", BT + "types.rs")])

PR = "primitives/src/lib.rs"
P("P01", "Token symbols, codes, tickers, decimals and encodings correspond one to one",
  "Every token symbol has one numeric code, ticker, name and number of decimals; conversion from a code or ticker yields exactly its symbol and rejects every other value, and one unit is ten to the decimals. "
  "The SCALE indices of symbols, currencies and pool currencies are fixed, because stored balances are keyed by them.",
  "inputs", "every byte, every ticker, every currency value", "No test compares the tables with each other; swapping two rows in one of them passes everything.",
  PR, [("symbol tables", PR + " create_currency_id"), ("currency encoding", PR + " CurrencyId")])
P("P02", "Pool currencies join, sort and convert without losing identity",
  "Joining two currencies yields a pool token only for plain tokens, foreign assets and stable pool tokens and keeps both in order; converting a pool currency back gives the original. "
  "Sorting a pool token exchanges its sides exactly when the first is greater, so a pair has one canonical identifier, and leaves every other currency alone.",
  "inputs", "every pair of currencies", "Only one or two pairs are sampled by pallet tests.",
  PR, [("pool currency algebra", PR + " join_lp_token, sort, into")])
P("P03", "Stored requests and RPC amounts keep their representation",
  "Issue, redeem and replace requests start pending, and their fields and statuses encode in a fixed order. "
  "Every balance in them and in RPC wrappers is serialised to JSON as a decimal string and parsed back from one, failing on anything that is not a number.",
  "inputs", "every stored request and every amount up to 128 bits", "Tests use small numbers, which a JSON number would carry as well.",
  PR, [("request records", PR + " IssueRequest, RedeemRequest, ReplaceRequest"), ("string amounts", PR + " serialize_as_string")])
P("P04", "Vault identifiers keep account, collateral and wrapped currency apart",
  "A vault identifier built from an account and currencies, separately or as a pair, reports exactly that account, collateral currency and wrapped currency.",
  "inputs", "every account and currency pair", "Tests that use the same currency twice cannot see a swap.",
  PR, [("vault identifier", PR + " VaultId")])
P("P05", "Fixed-point conversions truncate and never wrap",
  "Truncating a fixed-point number divides its inner value by the accuracy; converting a balance to a signed fixed-point number yields none when it does not fit.",
  "inputs", "every fixed-point number and balance", "Overflow happens only for extreme amounts.",
  PR, [("conversions", PR + " arithmetic")])

P("C01", "A BTC swap order pays its locked amount once, against a verified payment",
  "The swap contract pays out an order only when the chain verifies a Bitcoin payment to the order's address of at least its minimum, transfers exactly the amount the creator locked, and removes the order so that the same proof cannot be used again. "
  "Creating an order requires a positive minimum and records the transferred value under the caller.",
  "histories", "every sequence of order creations and executions with any proofs", "The contract has no tests.",
  "contracts/btc_swap/lib.rs", [("order execution", "contracts/btc_swap/lib.rs execute_trade"), ("order creation", "contracts/btc_swap/lib.rs create_trade")])
P("C02", "The flipper contract toggles and reports its one stored value",
  "Each flip inverts the stored value and changes nothing else; reading reports it, and construction stores the given initial value or false.",
  "histories", "every sequence of messages", "Tests flip once.",
  "contracts/hello_world/lib.rs", [("contract", "contracts/hello_world/lib.rs Flipper")])

RL = "crates/btc-relay/src/lib.rs "
P("R01", "Relay headers are checked, linked to a stored parent and never overwritten",
  "The relay is initialised once, at the start of a difficulty period. Every later header needs a stored parent, gets the parent's height plus one, passes header verification with its hash recomputed from its contents, extends its parent's chain if the parent is the tip and starts a fork otherwise. "
  "What is recorded is that header with its height, chain and the parachain block of storing; the best block moves only for main-chain blocks.",
  "histories", "every sequence of submitted headers", "Tests submit a few mocked headers; linkage and bookkeeping have to hold for every tree of headers an adversary relays.",
  RL + "crates/btc-relay/src/types.rs", [("header submission", RL + "store_block_header"), ("chain storage", RL + "create_and_store_blockchain extend_blockchain")],
  state=[("BlockHeaders", "stored headers by block hash"), ("ChainsIndex", "chains by id"), ("ChainsHashes", "block hash by chain and height"), ("BestBlock", "tip of the main chain"), ("ChainCounter", "next chain id")])
P("R02", "Relayed headers carry proof of work at the consensus difficulty",
  "A header is accepted only if it is new, its hash is below its own target and its target is the parent's, or at heights divisible by 2016 the one retargeted from the first and last block of the period on its own branch. "
  "Neither the difficulty nor the inclusion check can be switched off by a transaction.",
  "inputs", "every header, height and fork shape, including forks that cross a period boundary", "The retarget computation is mocked in the tests, which never let a fork cross a boundary: such forks were wrongly rejected.",
  RL, [("header verification", RL + "verify_block_header"), ("period start", RL + "get_last_retarget_time")], state=[("BlockHeaders", "stored headers by block hash"), ("ChainsIndex", "chains by id"), ("DisableDifficultyCheck", "genesis-only switch")])
P("R03", "The relay follows the longest chain and keeps forks ordered by height",
  "Forks are kept in descending order of height below the main chain; a fork that grows moves up past every lower one, and replaces the main chain exactly when it is ahead by the stability parameter. "
  "The replacement relinks every block down to the branch point to the main chain, moves the displaced blocks to the fork's chain and sets the best block to the fork's tip.",
  "histories", "every sequence of headers, any number of forks and forks of forks", "Tests build at most three chains; with more forks of equal height the order was in fact lost.",
  RL, [("fork ordering", RL + "reorganize_chains insert_sorted"), ("chain switch", RL + "swap_main_blockchain swap_block_to_mainchain")], state=[("Chains", "chain ids in order, main chain first"), ("ChainsIndex", "chains by id"), ("ChainsHashes", "block hash by chain and height"), ("BestBlock", "tip of the main chain"), ("BestBlockHeight", "height of the main chain's tip")])
P("R04", "A Bitcoin transaction counts only when proved in a stable main-chain block",
  "A transaction is accepted only if its Merkle proof and the coinbase's proof both verify, for the same block, root and transaction count, the coinbase is the first leaf and a real coinbase, the root is the stored header's, and that header is on the main chain "
  "with the required Bitcoin and parachain confirmations while no fork is within the stability parameter of the tip.",
  "inputs", "every proof and relay state", "Tests mock most of these checks one at a time.",
  RL, [("inclusion check", RL + "_verify_transaction_inclusion verify_block_header_inclusion"), ("confirmations", RL + "check_bitcoin_confirmations check_parachain_confirmations ensure_no_ongoing_fork")],
  state=[("BlockHeaders", "stored headers by block hash"), ("Chains", "chain ids in order, main chain first"), ("BestBlockHeight", "height of the main chain's tip")])
P("R05", "Bitcoin payments are matched to requests exactly",
  "An issue payment is the value of the output to the deposit address. A redeem or replace payment has at most three outputs, exactly one zero-value 32-byte op-return equal to the request id and one or two payments to different addresses, of which the recipient's equals the requested amount; any other transaction is rejected.",
  "inputs", "every transaction", "Tests use a few output combinations.",
  RL + "crates/btc-relay/src/types.rs", [("payment matching", "crates/btc-relay/src/types.rs OpReturnPaymentData"), ("issue payments", RL + "get_issue_payment")])
P("R06", "Requests expire only after their period on both clocks",
  "A request has expired only when strictly more than its period of active parachain blocks and strictly more than the corresponding number of Bitcoin blocks, rounded up, have passed since it was opened. "
  "Blocks produced while the parachain is not running do not count.",
  "inputs histories", "every pair of clocks and every period", "Tests check a few heights.",
  RL + "crates/security/src/lib.rs", [("expiry", RL + "has_request_expired bitcoin_expiry_height"), ("active block clock", "crates/security/src/lib.rs parachain_block_expired")], state=[("BestBlockHeight", "height of the main chain's tip"), ("ActiveBlockCount", "blocks produced while running")])

IS, RD, RP = "crates/issue/src/lib.rs ", "crates/redeem/src/lib.rs ", "crates/replace/src/lib.rs "
P("I01", "An issue request reserves vault capacity and locks griefing collateral first",
  "A request is recorded only for an active vault that accepts issues and is not banned, with the griefing collateral locked, the full amount reserved with the vault and at least the dust value asked for. "
  "The record names the deposit address derived from its own id; user amount and fee add up to the reserved amount, and only root changes the issue period.",
  "inputs", "every caller, vault, amount and chain state", "Tests mock the vault registry and fee pallets; the amounts recorded must agree with what was reserved and locked for all inputs.",
  IS + "crates/issue/src/types.rs", [("issue requests", IS + "_request_issue")], state=[("IssueRequests", "issue requests by id"), ("IssuePeriod", "time to pay"), ("IssueBtcDustValue", "smallest request")])
P("I02", "Executing an issue mints exactly what was verifiably paid, once",
  "A request is executed at most once and only against a relay-verified payment to its own deposit address. "
  "User amount plus fee minted equals the payment when it matches, falls short or the request was cancelled, and the payment capped by what the vault can back when it exceeds the request; fees go to the pool, the vault's liability grows by everything minted and griefing collateral is released, or slashed in proportion to a shortfall only the requester may accept.",
  "histories", "every payment amount relative to the request, request status and vault state", "The tests enumerate a few mocked cases of over- and underpayment.",
  IS, [("execution", IS + "_execute_issue"), ("amount changes", IS + "set_issue_amount decrease_issue_amount try_increase_issue_amount")], state=[("IssueRequests", "issue requests by id")])
P("I03", "Cancelling an issue returns the reservation and slashes only what is due",
  "Before expiry only the requester can cancel a pending request, losing griefing collateral in proportion to the time elapsed; after expiry anyone can, and all of it is slashed to the treasury. "
  "A liquidated vault's request costs the requester nothing, the vault's reservation is returned in full, and the request can then only be settled by a late payment.",
  "inputs histories", "every caller and time of cancellation", "Tests check one time before and one after expiry.",
  IS, [("cancellation", IS + "_cancel_issue")], state=[("IssueRequests", "issue requests by id")])
P("D01", "A redeem request locks the user's tokens and reserves the vault's",
  "A request is recorded only when the redeemer's full amount is locked, the vault is not banned and its tokens without the fee are reserved, the address is not zero and the bitcoin to be sent is at least dust. "
  "Bitcoin amount, inclusion fee and protocol fee add up to the locked amount, the fee is waived only for the vault itself, and the premium is the smaller of the rate's share and the vault's maximum, both before this redeem.",
  "inputs", "every caller, vault, amount and chain state", "Tests mock the vault registry and check a few amounts.",
  RD + "crates/redeem/src/types.rs", [("redeem requests", RD + "_request_redeem"), ("replace collateral", RD + "release_replace_collateral")], state=[("RedeemRequests", "redeem requests by id"), ("RedeemPeriod", "time to pay"), ("RedeemBtcDustValue", "smallest payment"), ("RedeemTransactionSize", "size for the fee estimate")])
P("D02", "Executing a redeem burns exactly what left the vault in bitcoin, once",
  "A request is executed at most once and only while pending, against a relay-verified payment of its exact amount to its address tagged with its id. "
  "Bitcoin amount plus inclusion fee are burned from the redeemer, the protocol fee goes from the redeemer to the fee pool, and the vault's liability falls by what was burned while the recorded premium is paid to the redeemer.",
  "histories", "every request, payment proof and order of calls", "Tests mock the payment check and the vault registry.",
  RD, [("execution", RD + "_execute_redeem"), ("open requests", RD + "get_open_redeem_request_from_id")], state=[("RedeemRequests", "redeem requests by id")])
P("D03", "Cancelling a redeem compensates the user and settles tokens consistently",
  "Only the redeemer cancels, only after expiry, and once. "
  "With reimbursement the vault is slashed by full value plus punishment, otherwise by the punishment alone (a liquidated vault by the request's share of its confiscated collateral), and the locked tokens are burned, handed to the vault or returned in the one combination that keeps issued tokens and liabilities equal.",
  "histories", "every combination of liquidation, collateralisation and choice", "The tests cover the branches with mocked collateral; what each branch burns, unlocks and deducts must agree for all of them.",
  RD, [("cancellation", RD + "_cancel_redeem")], state=[("RedeemRequests", "redeem requests by id")])
P("D04", "Self-redeem, liquidation redeem and late mint keep tokens and liability equal",
  "A vault's self-redeem burns its own tokens and reduces its liability by exactly that, free of charge only for its last free tokens. "
  "A liquidation redeem burns the caller's tokens for liquidated collateral, and a reimbursed redeem's tokens are minted at most once, by the slashed vault, only when it can back them.",
  "histories", "every vault, amount and request history", "Tests mock the vault registry and exercise single calls.",
  RD, [("self redeem", RD + "execute take_user_tokens"), ("liquidation redeem", RD + "_liquidation_redeem"), ("late mint", RD + "_mint_tokens_for_reimbursed_redeem")], state=[("RedeemRequests", "redeem requests by id")])
P("X01", "Replace requests lock griefing collateral for exactly what is offered",
  "A vault that is not banned and not nominatable can offer at most its requestable tokens for replacement, above dust in total, locking griefing collateral in proportion to what it adds; withdrawing returns both. "
  "Vaults act only on their own requests and only root changes the replace period.",
  "inputs", "every vault, amount and chain state", "Tests mock the vault registry.",
  RP, [("replace requests", RP + "_request_replace _withdraw_replace_request")], state=[("ReplacePeriod", "time to pay"), ("ReplaceBtcDustValue", "smallest replace")])
P("X02", "Accepting a replace moves reservations and collateral in proportion",
  "Only another, unbanned vault backing the same token can accept, and only what was really offered is taken: the new vault deposits collateral in that proportion and reserves issue capacity for it, the old vault reserves as many tokens for redeeming. "
  "Released griefing collateral becomes active collateral of the recorded request, whose amounts are exactly those moved.",
  "inputs", "every pair of vaults, amounts and chain state", "Tests mock the vault registry.",
  RP + "crates/replace/src/types.rs", [("acceptance", RP + "_accept_replace accept_replace_tokens")], state=[("ReplaceRequests", "replace requests by id")])
P("X03", "A replace request is settled once, by verified payment or after expiry",
  "Execution needs a relay-verified payment of the exact amount to the new vault tagged with the request, transfers the tokens between the vaults and returns the old vault's griefing collateral unless it was slashed at cancelling, in which case both reservations are made again first. "
  "Cancelling is possible only after expiry, undoes both reservations, compensates the new vault and releases its extra collateral only if it stays collateralised.",
  "histories", "every order of execution, expiry and cancellation", "Tests check single calls with a mocked vault registry.",
  RP, [("execution", RP + "_execute_replace"), ("cancellation", RP + "_cancel_replace")], state=[("ReplaceRequests", "replace requests by id")])
P("W01", "Calls carrying Bitcoin proofs are charged for both proofs at the worst outcome",
  "The declared weight of executing an issue, redeem or replace is the sum, over the user's and the coinbase proof, of the most expensive outcome for that proof's numbers of hashes, inputs, outputs and encoded bytes.",
  "inputs", "every proof", "No test measures weights; an undercharged proof lets a caller fill blocks for free.",
  IS + RD + RP, [("issue weight", IS + "weight_for_execute_issue"), ("redeem weight", RD + "weight_for_execute_redeem"), ("replace weight", RP + "weight_for_execute_replace")])

VR = "crates/vault-registry/src/lib.rs "
VT = VR + "crates/vault-registry/src/types.rs "
P("V01", "Vault solvency tests compare the right tokens, collateral and threshold",
  "A vault is below a ratio exactly when its backing collateral (nominations included) divided by the ratio is worth less than its tokens; liquidation counts issued tokens only, everything else pending issues too, and the secure ratio is the larger of the vault's own and the global one. "
  "Free collateral, issuable and redeemable tokens, required collateral (rounded up), capacity and the largest premium follow from that, and withdrawing collateral is allowed only if what stays is zero or the minimum and still secures all tokens.",
  "inputs", "every vault state, price and threshold", "Tests fix a handful of collateral and exchange-rate values.",
  VT, [("ratio test", VR + "is_collateral_below_threshold is_vault_below_liquidation_threshold"), ("withdrawal", VR + "is_allowed_to_withdraw_collateral"), ("derived amounts", "crates/vault-registry/src/types.rs issuable_tokens get_free_collateral get_used_collateral")],
  state=[("SecureCollateralThreshold", "ratio for new tokens"), ("PremiumRedeemThreshold", "ratio below which redeems earn a premium"), ("LiquidationCollateralThreshold", "ratio below which a vault is liquidated"), ("Vaults", "vault records")])
P("V02", "Vault token counters move together and stay within what is backed",
  "Pending issues grow only within the free collateral, pending redeems and replaces only within the issued tokens not already leaving, and no counter wraps. "
  "Each operation moves exactly the counters it names by exactly the amount given, on the vault or, where a liquidated vault no longer owns them, on the liquidation vault; replace collateral is released in proportion.",
  "histories", "every vault state and amount", "Tests set up single vaults with round numbers; the counters must stay consistent over any history.",
  VT, [("reservation", VR + "try_increase_to_be_issued_tokens try_increase_to_be_redeemed_tokens try_increase_to_be_replaced_tokens"), ("release", VR + "decrease_to_be_replaced_tokens issue_tokens decrease_tokens")],
  state=[("Vaults", "vault records"), ("LiquidationVault", "tokens and collateral of liquidated vaults by currency pair")])
P("V03", "Settling a redeem or replace moves tokens and confiscated collateral",
  "Completing a redeem or replace lowers the old vault's pending and issued tokens by the amount; if that vault was liquidated, the liquidation vault's tokens fall instead and the share of collateral set aside for the amount is released to it (or returned to the liquidation vault when a replace is cancelled). "
  "A liquidation redeem takes at most the tokens no other redeem will burn and pays the burned share of the liquidation vault's collateral.",
  "histories", "every status of both vaults, amount and liquidation history", "Tests cover the branches one vault at a time.",
  VT, [("redeem", VR + "redeem_tokens redeem_tokens_liquidation"), ("replace", VR + "replace_tokens cancel_replace_tokens withdraw_replace_request")],
  state=[("Vaults", "vault records"), ("LiquidationVault", "tokens and collateral of liquidated vaults by currency pair")])
P("V04", "Moving collateral debits one place, credits another and keeps the total",
  "A transfer between backing collateral, replace collateral, griefing deposits, liquidated collateral, the liquidation vault and free balance moves exactly the amount between the accounts behind them, reserved before and after exactly where it must be, with each record and the total of locked collateral adjusted. "
  "Locked collateral never exceeds the currency's ceiling, and the total changes only with it.",
  "histories", "every pair of places, owner and amount", "Tests check a few of the 49 combinations.",
  VT, [("transfers", VR + "transfer_funds transfer_funds_saturated"), ("total", VR + "try_increase_total_backing_collateral decrease_total_backing_collateral")],
  state=[("TotalUserVaultCollateral", "locked collateral by currency pair"), ("SystemCollateralCeiling", "limit of locked collateral"), ("Vaults", "vault records")])
P("V05", "Liquidation hits exactly undercollateralised vaults, once, and is fair",
  "Only a vault below its liquidation threshold is liquidated, and only while active; its tokens move to the liquidation vault with collateral up to the threshold in proportion to the tokens not awaiting redemption, the vault paying before its nominators, while collateral for pending redeems is set aside. "
  "Unsigned reports come from local sources for this call only, and a vault recovers only once it owes no redeem, its reward stake following its status both ways.",
  "histories", "every vault state, price and pending request", "Tests liquidate a few vaults with round numbers.",
  VT + "crates/vault-registry/src/pool_manager.rs", [("liquidation", "crates/vault-registry/src/types.rs liquidate"), ("reports", VR + "report_undercollateralized_vault undercollateralized_vaults validate_unsigned"), ("recovery", VR + "recover_vault_id")],
  state=[("Vaults", "vault records"), ("LiquidationVault", "tokens and collateral of liquidated vaults by currency pair"), ("LiquidationCollateralThreshold", "ratio below which a vault is liquidated")])
P("V06", "Vaults register once with enough collateral; governance sets risk limits",
  "A vault is registered once per account and currency pair, with a Bitcoin key, configured thresholds and at least the minimum collateral, starting without tokens; every record is stored under its own identifier. "
  "A key is set once, a custom threshold is above the global one, only active vaults open or close for issues, deposit addresses derive from the vault's key and the request, and thresholds, ceilings and minimums change only by root.",
  "inputs", "every caller, vault and parameter", "Tests register a few vaults.",
  VT, [("registration", VR + "_register_vault register_public_key"), ("settings", VR + "accept_new_issues set_custom_secure_threshold"), ("parameters", VR + "set_minimum_collateral set_system_collateral_ceiling set_secure_collateral_threshold set_premium_redeem_threshold set_liquidation_collateral_threshold")],
  state=[("Vaults", "vault records"), ("VaultBitcoinPublicKey", "Bitcoin key by account"), ("MinimumCollateralVault", "least collateral"), ("SystemCollateralCeiling", "limit of locked collateral"), ("SecureCollateralThreshold", "ratio for new tokens")])
P("V07", "Every collateral change first pays rewards, then updates all reward pools",
  "Depositing, withdrawing, slashing or refunding collateral and changing a vault's settings first distributes the rewards earned so far and afterwards sets the vault's reward stake, which is its collateral over its secure threshold, or zero while it accepts no issues. "
  "The currency's capacity is then set to its total reward stake in the wrapped currency, as it is on every exchange rate change.",
  "inputs histories", "every order of collateral, settings and price changes", "Tests check one change at a time with mocked pools.",
  VR + "crates/vault-registry/src/pool_manager.rs", [("propagation", "crates/vault-registry/src/pool_manager.rs deposit_collateral withdraw_collateral slash_collateral update_reward_stake update_capacity_stake")],
  state=[("Vaults", "vault records")])
P("V08", "Vault queries list exactly the vaults that qualify, largest first",
  "The queries for issuable, redeemable and premium vaults return every vault with a non-zero amount, that amount in the vault's own wrapped currency, in descending order, and no other; the premium amount is what restores the secure threshold including fees. "
  "A vault closed for issues offers nothing and the account query returns exactly the account's vaults.",
  "inputs", "every set of vaults", "Tests list two or three vaults.",
  VT, [("queries", VR + "get_vaults_with_issuable_tokens get_vaults_with_redeemable_tokens get_premium_redeem_vaults get_vaults_by_account_id")],
  state=[("Vaults", "vault records")])
OR = "crates/oracle/src/lib.rs "
CU = "crates/currency/src/amount.rs "
P("A01", "Amounts combine only in one currency and scale with the stated rounding",
  "Adding, subtracting, comparing or dividing two amounts succeeds only when both are of one currency, and the result is of that currency, exact, and an error rather than a wrapped value on overflow. "
  "Scaling an amount by a fixed-point number keeps the currency and rounds as asked, downwards unless told otherwise; converting to and from fixed point rejects what does not fit.",
  "inputs", "every pair of amounts and scale", "Tests add two small amounts.",
  CU, [("arithmetic", CU + "checked_add checked_sub saturating_sub ratio checked_rounded_mul checked_div lt min")])
P("A02", "Token operations move exactly the amount, in its own currency",
  "Transferring, locking, unlocking, burning and minting an amount act on exactly that many tokens of its currency and the named accounts, and an operation that could only be done in part is an error. "
  "Swept funds go to the configured account.",
  "inputs", "every amount, account and balance", "Tests use sufficient balances.",
  CU + "crates/currency/src/lib.rs", [("actions", CU + "transfer lock_on unlock_on burn_from mint_to"), ("sweep", "crates/currency/src/lib.rs on_sweep")])
P("A03", "Lend tokens are converted through their underlying currency",
  "Converting from a lend token first values it in its underlying currency, and converting to one values the result in the underlying currency and then in lend tokens. "
  "Other conversions use the oracle price alone, and a conversion without a rate is an error.",
  "inputs", "every pair of currencies", "The conversion is mocked in the tests of the pallets using it.",
  "crates/currency/src/lib.rs", [("conversion", "crates/currency/src/lib.rs convert")])
P("O01", "A price is the median of recent values and disappears when they expire",
  "In the block after new values arrive or a price expires it is recomputed as the median of the values not older than the maximum delay, is valid until the oldest of them expires, and is deleted when none is left. "
  "Every change of an exchange rate reaches the reward pools after it is stored, and no set of values, however large, keeps a price from being recomputed.",
  "histories", "every sequence of feeds and blocks", "Tests feed a few values and one expiry.",
  OR, [("aggregation", OR + "update_aggregate median begin_block")],
  state=[("RawValues", "value of each oracle by key"), ("RawValuesUpdated", "keys with new values"), ("Aggregate", "price by key"), ("ValidUntil", "end of a price's validity"), ("MaxDelay", "age at which a value expires")])
P("O02", "Only authorised oracles feed prices, each replacing only its own",
  "A value is accepted only from an account governance has authorised, carries the current time and replaces only that account's value for the key, which is then recomputed. "
  "Prices come only from the aggregation, and oracles are added and removed only by root.",
  "histories", "every caller and order of calls", "Tests check one unauthorised caller.",
  OR, [("feeds", OR + "feed_values insert_authorized_oracle remove_authorized_oracle")],
  state=[("AuthorizedOracles", "accounts that may feed values"), ("RawValues", "value of each oracle by key"), ("Aggregate", "price by key")])
P("O03", "Conversions use the stored price and go through the wrapped currency",
  "An amount is converted at the stored price of its currency, rounded down, where a price is per unit of wrapped currency and two other currencies are converted through it. "
  "A missing price is an error and converting to the same currency changes nothing.",
  "inputs", "every amount and currency pair", "Tests convert a few amounts.",
  OR, [("conversion", OR + "convert get_price wrapped_to_collateral collateral_to_wrapped")],
  state=[("Aggregate", "price by key")])
FE = "crates/fee/src/lib.rs "
RW = "crates/reward/src/lib.rs "
ST = "crates/staking/src/lib.rs "
NO = "crates/nomination/src/lib.rs "
P("F01", "Fees are bounded shares of the amount, set by root, commissions by vaults",
  "Each fee is its own stored share of the amount, rounded to nearest, the premium down; root sets a share only up to the maximum. "
  "A vault open for nominations sets only its own commission, at most everything.",
  "inputs", "every amount, fee and caller", "Tests use a few fees.",
  FE, [("fees", FE + "get_issue_fee get_redeem_fee get_premium_redeem_fee get_punishment_fee set_commission")],
  state=[("IssueFee", "share taken on issue"), ("RedeemFee", "share taken on redeem"), ("PremiumRedeemFee", "premium of redeeming from a weak vault"), ("Commission", "share of rewards a vault keeps")])
P("F02", "Rewards flow to pools, vaults and stakers in full; each withdraws its own",
  "A fee is distributed to the pools in full or, when nobody stakes, swept in full to the configured account; what a currency's pool earned goes to its vaults and a vault's share to its commission and its stakers, with nothing left over. "
  "A staker withdraws exactly its own computed reward from the fee pool, after all pools were brought up to date, and asking for a reward changes nothing.",
  "histories", "every order of fees, withdrawals and pool changes", "Tests follow one reward through mocked pools.",
  FE, [("flow", FE + "distribute_rewards distribute_vault_rewards withdraw_vault_rewards compute_vault_rewards")])
P("F03", "Pools pay each staker its share of every reward since it staked, once",
  "A reward raises what every unit of stake earned by reward over total stake; depositing or withdrawing stake changes stake, total and tally together, so that it neither gains nor loses earlier rewards, and a paid reward cannot be paid again. "
  "A reward without stakers is refused, and setting a stake ends at exactly that stake.",
  "histories", "every sequence of deposits, rewards and withdrawals", "Tests run a few sequences.",
  RW, [("pool", RW + "deposit_stake withdraw_stake distribute_reward compute_reward withdraw_reward set_stake")],
  state=[("Stake", "stake by pool and staker"), ("TotalStake", "stake by pool"), ("RewardPerToken", "earnings of a unit of stake"), ("RewardTally", "earnings already accounted for"), ("TotalRewards", "rewards not yet paid")])
P("S01", "Stakes are slashed in proportion, once; no pool pays more than its stake",
  "A slash reduces every stake in the vault's pool in proportion and is settled once per staker, before its stake changes and for the very pool it is in; a withdrawal takes at most what remains of that staker's stake in that pool. "
  "Refunding nominators leaves their stakes in a pool of their own and moves the vault's to a new one.",
  "histories", "every sequence of deposits, slashes, refunds and withdrawals, in every pool", "Tests withdraw only from the current pool.",
  ST, [("stakes", ST + "deposit_stake withdraw_stake apply_slash slash_stake force_refund")],
  state=[("Stake", "stake by pool and staker"), ("TotalStake", "stake not yet settled"), ("TotalCurrentStake", "stake after slashes"), ("SlashPerToken", "loss of a unit of stake"), ("SlashTally", "slashes already accounted for"), ("Nonce", "current pool of a vault")])
P("S02", "Vault and nominators share rewards by remaining stake, unharmed by slashes",
  "A reward raises what every remaining unit of stake earned; slashing takes stake but no reward earned before, and a staker withdraws its share once, computed from its slashed stake in the pool concerned. "
  "Pools change only through the staking interface.",
  "histories", "every sequence of rewards, slashes and withdrawals", "Tests run a few sequences.",
  ST, [("rewards", ST + "increase_rewards distribute_reward compute_reward_at_index withdraw_reward_at_index")],
  state=[("RewardPerToken", "earnings of a unit of stake"), ("RewardTally", "earnings already accounted for"), ("TotalRewards", "rewards not yet paid")])
P("N01", "Stakers withdraw only their own collateral, keeping the vault secure",
  "A withdrawal from a vault's current pool needs the vault to stay above its secure threshold and, for a nominator, nominations to be open; one from an earlier pool is always allowed. "
  "The staker receives exactly what left its stake, unlocked from the vault, and the total of locked collateral falls once.",
  "histories", "every staker, pool and amount", "Tests withdraw from the current pool only.",
  NO, [("withdrawal", NO + "_withdraw_collateral withdraw_collateral")],
  state=[("NominationEnabled", "whether nomination is allowed"), ("Vaults", "vaults open for nominations")])
P("N02", "Nominations go only to willing vaults, within their limit, and are paid for",
  "A nominator stakes only with a vault that opted in, while nomination is enabled and up to the vault's own limit, paying the amount, which is locked and counted against the ceiling. "
  "Only the vault opts in or out; opting out needs it to be secure on its own, refunds all nominators and takes their collateral off the total.",
  "histories", "every nominator, vault and amount", "Tests nominate once or twice.",
  NO, [("nomination", NO + "_deposit_collateral _opt_in_to_nomination _opt_out_of_nomination set_nomination_limit")],
  state=[("NominationLimit", "most that may be nominated to a vault"), ("Vaults", "vaults open for nominations"), ("NominationEnabled", "whether nomination is allowed")])

ES = "crates/escrow/src/lib.rs "
P("E01", "Locked tokens stay locked until the lock ends, and locks only grow",
  "A lock is made of one's own free balance, at least the minimum that rounds to voting power, ends on a span boundary in the future within the longest period, and can only be enlarged or prolonged before its end. "
  "The locked amount cannot be spent before the end; afterwards exactly the whole lock is released. Accounts that root blocked lock nothing.",
  "histories", "every account, amount, height and sequence of lock calls", "Tests lock once or twice at fixed heights.",
  ES, [("locks", ES + "create_lock increase_amount increase_unlock_height deposit_for remove_lock get_free_balance set_account_limit set_account_block")],
  state=[("Locked", "amount and end of an account's lock"), ("Limits", "period over which a limited account's balance becomes available"), ("Blocks", "accounts that may not lock")])
P("E02", "Voting power decays linearly to zero at the lock's end; the total is its sum",
  "An account's power is its locked amount scaled by the time that remains, never negative, and nothing once the lock is withdrawn. "
  "The total supply of power is the sum over accounts; power that is reserved is not available twice, and power cannot be transferred, minted or slashed.",
  "histories", "every height and every history of locks", "Tests check the total before and just at the end of one lock; the recorded defect shows only later.",
  ES, [("power", ES + "checkpoint balance_at supply_at Point Currency ReservableCurrency")],
  state=[("UserPointHistory", "power, slope and time of an account's checkpoints"), ("PointHistory", "the same for the total"), ("SlopeChanges", "change of the total's slope at a lock's end"), ("Reserved", "power an account has reserved")])

RI, RK = "parachain/runtime/interlay/src/", "parachain/runtime/kintsugi/src/"
RTL = RI + "lib.rs " + RK + "lib.rs "
RTX = RI + "xcm_config.rs " + RK + "xcm_config.rs "
TX = "crates/tx-pause/src/lib.rs "
P("G01", "A paused call cannot be dispatched, everything else can, and pausing reverts",
  "The filter refuses a call exactly while it or its whole pallet is paused and it is not exempt, and names too long to be listed are treated as configured. "
  "Only the pause and unpause origins (root in both runtimes) pause or resume, a call cannot be paused twice or resumed when not paused, and the pause pallet itself can never be paused.",
  "histories", "every call and every sequence of pauses and resumptions", "Tests pause two calls of a mock runtime.",
  TX + RTL, [("pause", TX + "pause unpause is_paused ensure_can_pause ensure_can_unpause"), ("origins", RI + "lib.rs impl tx_pause::Config for Runtime")],
  state=[("PausedCalls", "paused pallets and calls")])
P("G02", "Users cannot reach calls reserved to governance, nor other chains nested calls",
  "In both runtimes core and governance calls always dispatch, EVM calls never, of the XCM pallet only sending, and every other call unless paused. "
  "A call transacted from another chain is never one that wraps another call or carries Bitcoin transactions, and no assets arrive by teleport or from a foreign reserve.",
  "inputs", "every call and every XCM message", "The runtimes' filters have no unit tests; integration tests send a few messages.",
  RTL + RTX, [("call filters", RI + "lib.rs BaseCallFilter"), ("XCM filters", RI + "xcm_config.rs SafeCallFilter XcmConfig")])
P("G03", "Inflation and block rewards are paid once per period, in full and as planned",
  "At each due height, and at no other, the issuance grows by its rate, the next height moves on by one period, and all of what was created goes to vaults (40%), voters (6.7%) and the treasury (the rest). "
  "Each block distributes the planned reward, capped by what the wrapped supply earns; a vault reward moves to the fee pool in the same amount, a voter withdraws exactly its own, and only root changes the rates.",
  "inputs histories", "every height, issuance and rate", "Tests check one period with a mocked receiver.",
  "crates/supply/src/lib.rs crates/annuity/src/lib.rs " + RTL,
  [("inflation", "crates/supply/src/lib.rs begin_block"), ("block rewards", "crates/annuity/src/lib.rs begin_block withdraw_rewards"), ("shares", RI + "lib.rs DealWithRewards VaultBlockRewardProvider EscrowBlockRewardProvider")],
  state=[("StartHeight", "next height of inflation"), ("Inflation", "rate of a period"), ("RewardPerBlock", "planned reward"), ("RewardPerWrapped", "cap by wrapped supply")])
SE = "crates/security/src/lib.rs "
P("G04", "Ids never repeat; the deadline clock ticks once per active block; root releases",
  "An id hashes the account, a counter that no other id used, and the parent block. "
  "The active block count rises by one in each block while the chain is active and stands still otherwise, a period has expired only once it has fully passed, and only root deactivates it or announces client releases, all of which become current at an upgrade.",
  "histories", "every sequence of requests, blocks and deactivations", "Tests compare two ids and count a few blocks.",
  SE + "crates/clients-info/src/lib.rs", [("ids and blocks", SE + "get_secure_id increment_active_block parachain_block_expired"), ("releases", "crates/clients-info/src/lib.rs")],
  state=[("Nonce", "counter of ids"), ("ActiveBlockCount", "active blocks so far"), ("IsDeactivated", "whether deadlines stand still")])
P("G05", "Each currency has one XCM location, and no other key stands for it",
  "The relay token is the parent, the wrapped and native tokens are this chain and their encoded key, foreign assets are as registered; a location means a currency exactly when it is one of these (own tokens also in the reanchored form). "
  "Keys that are too long, malformed, or name other tokens are no currency of this chain; fees taken in a currency are paid out in full.",
  "inputs", "every location and currency", "Integration tests transfer four currencies; malformed keys are not tried.",
  RTX, [("conversion", RI + "xcm_config.rs CurrencyIdConvert general_key_of"), ("revenue", RI + "xcm_config.rs ToAuthor take_revenue")])
P("G06", "Both runtimes give privileged calls to governance and connect the right pools",
  "Market, scheduler, preimage, membership, identity, XCM queue and asset registry administration needs root, fast tracking the whole technical committee. "
  "Fees, vault stakes, farming and voting use their own reward pools and currencies; price, stake and lend-balance changes reach the thresholds and rewards that depend on them.",
  "configurations", "every privileged call of either runtime", "Pallet tests use mock runtimes with their own wiring.",
  RTL, [("configuration", RI + "lib.rs impl Config for Runtime"), ("origins", RI + "lib.rs AssetAuthority")])
LO = "crates/loans/src/lib.rs "
LOD = "crates/loans/src/"
P("L01", "A loan is paid out in full, recorded in full and covered by collateral",
  "Borrowing pays the amount out once, adds it to the account's debt (stored with the current borrow index) and to the market's total, after interest and rewards are settled. "
  "It needs an active market, its cap, cash beyond the reserves, and collateral (locked lend tokens at the collateral factor) that covers all the account's debts; every such loan is granted. "
  "A debt grows as its market's index does, rounded up.",
  "inputs histories", "every account, market state and amount", "Tests borrow a few amounts in fresh markets.",
  LOD + "lib.rs " + LOD + "types.rs", [("borrowing", LO + "do_borrow borrow_allowed ensure_liquidity"), ("values", LO + "total_borrowed_value total_collateral_value"), ("debts", LO + "current_borrow_balance")],
  state=[("AccountBorrows", "principal and index of each debt"), ("TotalBorrows", "debts of a market"), ("AccountDeposits", "lend tokens locked as collateral"), ("Markets", "parameters of each market")])
P("L02", "A loan shrinks by exactly what is paid in, and can always be repaid",
  "A repayment, at most the debt with interest up to now, is transferred from the payer to the pallet and taken from the account's debt and the market's total; repaying all repays exactly the debt. "
  "Rewards are settled on the debt before it changes.",
  "inputs histories", "every debt and amount", "Tests repay a few amounts.",
  LOD + "lib.rs", [("repaying", LO + "do_repay_borrow_with_amount do_repay_borrow repay_borrow_all")],
  state=[("AccountBorrows", "principal and index of each debt"), ("TotalBorrows", "debts of a market")])
P("L03", "Only accounts below the threshold are liquidated, for what is repaid plus bonus",
  "Only an account whose debts exceed its collateral at the liquidation threshold is liquidated, by someone else, for at most the close factor of the debt, and any such account can be. "
  "The liquidator pays the repaid amount in and gets lend tokens of that value plus the incentive, less the reserve's share; exactly these leave the borrower's deposit, its debt falls by the payment, and rewards are settled first.",
  "inputs histories", "every debt, price and deposit", "Tests liquidate one or two accounts.",
  LOD + "lib.rs", [("liquidation", LO + "do_liquidate_borrow liquidate_borrow_allowed liquidated_transfer")],
  state=[("AccountBorrows", "principal and index of each debt"), ("AccountDeposits", "lend tokens locked as collateral"), ("TotalBorrows", "debts of a market")])
P("L04", "Lend tokens are issued and redeemed at the rate that shares the market's assets",
  "A deposit is paid in and mints lend tokens at the exchange rate of now, (cash + debts - reserves) / supply; redeeming burns them and pays the same rate, out of cash not reserved and only from tokens that are not collateral. "
  "The rate stays between its bounds, deposits stay under the supply cap, and interest and rewards are settled before.",
  "inputs histories", "every deposit, supply and market state", "Tests mint and redeem at the initial rate and one other.",
  LOD + "lib.rs " + LOD + "interest.rs " + LOD + "types.rs", [("supply", LO + "do_mint do_redeem redeem_allowed"), ("rate", LOD + "interest.rs calculate_exchange_rate")],
  state=[("ExchangeRate", "last published exchange rate"), ("MinExchangeRate", "lower bound"), ("MaxExchangeRate", "upper bound")])
P("L05", "Interest accrues once per elapsed time by the market's rate model",
  "Whenever time has passed, and only then, the borrow index compounds per second at the model's rate for the current utilisation, the total debt grows with the index (rounded down) and the reserves by their factor of that growth. "
  "All published rates are those of that state; a rate model that has no rate for some utilisation, or exceeds the limits, is refused.",
  "inputs histories", "every utilisation, rate model and elapsed time", "Tests accrue over a few intervals.",
  LOD + "interest.rs " + LOD + "rate_model.rs", [("accrual", LOD + "interest.rs accrue_interest get_market_status accrue_index"), ("models", LOD + "rate_model.rs get_borrow_rate check_model")],
  state=[("BorrowIndex", "growth of a unit of debt"), ("TotalReserves", "reserves of a market"), ("LastAccruedInterestTime", "time up to which interest is counted")])
P("L06", "Markets keep valid parameters and one lend token each; privileged origins only",
  "A market is added pending, with factors in range, collateral factor at most the liquidation threshold and a lend token that stands for nothing else; updates check the same on the values that are stored. "
  "Only the update origin changes markets and rewards, only the reserve origin withdraws reserves, which move with the transferred amount.",
  "configurations inputs", "every market and update", "Tests try a few invalid factors.",
  LOD + "lib.rs", [("markets", LO + "add_market update_market force_update_market update_rate_model"), ("reserves", LO + "add_reserves reduce_reserves")],
  state=[("Markets", "parameters of each market"), ("UnderlyingAssetId", "currency of each lend token"), ("TotalReserves", "reserves of a market")])
P("L07", "Lending rewards accrue per block to suppliers and borrowers in proportion",
  "Each block adds the market's reward speed, shared over all lend tokens (supplied) or all debt (without interest growth), to the market's index, once, and an account earns its share of the index's growth since it was last settled. "
  "Lend tokens move only after both sides are settled; a claim pays all that is accrued, once.",
  "inputs histories", "every reward speed, account and schedule of blocks", "Tests follow one or two accounts.",
  LOD + "farming.rs " + LOD + "lib.rs", [("rewards", LOD + "farming.rs update_reward_supply_index distribute_supplier_reward pay_reward")],
  state=[("RewardSupplyState", "index of supply rewards"), ("RewardBorrowState", "index of borrow rewards"), ("RewardAccrued", "earned and not yet paid")])
P("L08", "Loan collateral is locked lend tokens, released only if debts stay covered",
  "Locking reserves the account's lend tokens and records exactly that as its deposit, unlocking returns and removes the same; an account's lend tokens of one kind are all collateral or all free. "
  "Collateral is released only if the rest still covers the account's debts, and lend tokens that arrive at an account with a deposit join it.",
  "inputs histories", "every deposit and debt", "Tests lock and unlock single deposits.",
  LOD + "lib.rs", [("collateral", LO + "deposit_all_collateral withdraw_all_collateral lock_if_account_deposited")],
  state=[("AccountDeposits", "lend tokens locked as collateral")])
DX = "crates/dex-general/src/"
DXS = "crates/dex-general/src/swap/mod.rs "
P("Q01", "Swaps follow the constant product less fees, hop by hop, within the user's limit",
  "Along any path each hop is priced by the constant product on the input less the pair's fee, rounded against the trader, and takes exactly what the hop before gave; the user never gets less (pays more) than the limit given, nor later than the deadline. "
  "No hop lowers the product of its pair's reserves as they are at that moment, even when the path passes through a pair more than once.",
  "inputs histories", "every path, amount, fee and reserves", "Tests swap along paths of distinct pairs with chosen reserves.",
  DX + "swap/mod.rs " + DX + "lib.rs", [("prices", DXS + "get_amount_in get_amount_out"), ("paths", DXS + "get_amount_out_by_path get_amount_in_by_path"), ("swap", DXS + "swap pair_swap")],
  state=[("PairStatuses", "status, account, supply and fee of each pair")])
P("Q02", "Exchange liquidity shares are minted and burned in proportion to the reserves",
  "Adding liquidity pays in both assets within the provider's bounds and mints the lesser of the two shares; removing burns the share and pays the same part of both reserves, at least the minimum given. "
  "Before either, the protocol's part of the growth since the last change is minted and counted in the supply, so the supply on record is always the supply there is.",
  "inputs histories", "every history of additions, removals and fee settings", "Tests sample amounts with the fee mostly off.",
  DX + "swap/mod.rs", [("liquidity", DXS + "inner_add_liquidity inner_remove_liquidity"), ("shares", DXS + "calculate_liquidity calculate_added_amount"), ("fee", DXS + "mint_protocol_fee")],
  state=[("KLast", "product of the reserves when the fee was last settled"), ("PairStatuses", "supply of each pair")])
P("Q03", "Bootstrap contributions are paid, claimed once or refunded once, in full",
  "A contribution is paid before the end, up to the capacity left, and added to the contributor's and the pair's totals; when the targets are met all of it becomes the reserves and each contributor claims half its share of both sides, and its share of the rewards, once. "
  "If a target is missed exactly the contribution is refunded, once; rewards that were paid or withdrawn are no longer there to withdraw.",
  "inputs histories", "every history of contributions, claims and refunds", "Tests run single bootstraps with two contributors.",
  DX + "swap/mod.rs " + DX + "lib.rs", [("bootstrap", DXS + "do_bootstrap_contribute do_end_bootstrap do_bootstrap_claim do_bootstrap_refund"), ("rewards", DX + "lib.rs bootstrap_charge_reward bootstrap_withdraw_reward")],
  state=[("BootstrapPersonalSupply", "contributions not yet claimed or refunded"), ("BootstrapEndStatus", "bootstrap parameters at its end"), ("BootstrapRewards", "rewards of each bootstrap")])
P("Q04", "Only root creates exchange pairs and bootstraps; supplies and rewards stay",
  "Pairs, fees and bootstraps are set by root only, with a fee below the whole, and a pair that trades is never created anew or reset. "
  "A bootstrap is replaced only after it failed and without unpaid rewards, keeping its contributions; every change reports the values stored.",
  "configurations inputs", "every status and parameter", "Tests try one call per status.",
  DX + "lib.rs", [("pairs", DX + "lib.rs create_pair set_exchange_fee"), ("bootstraps", DX + "lib.rs bootstrap_create bootstrap_update"), ("fee", DX + "lib.rs set_fee_receiver set_fee_point")],
  state=[("FeeMeta", "receiver and part of the protocol's fee"), ("BootstrapLimits", "holdings required of contributors")])
FA = "crates/farming/src/lib.rs "
MP = "crates/multi-transaction-payment/src/lib.rs "
ST = "crates/dex-stable/src/"
SR = "crates/dex-swap-router/src/lib.rs "
P("Y01", "Farming schedules pay each promised reward once, out of funds set aside for it",
  "Root funds every schedule from the treasury when it is set, and what is still to be paid plus what is added is spread evenly over the periods, rounded down; each period the schedule pays once and counts down only if the payment went through. "
  "Removing a schedule returns what was still to be paid; rewards distributed but not yet claimed are neither promised again nor taken back.",
  "inputs histories", "every history of schedules, distributions and claims", "Tests set one schedule and claim everything before changing it.",
  FA, [("set", FA + "update_reward_schedule remove_reward_schedule"), ("distribute", FA + "on_initialize try_distribute_reward")],
  state=[("RewardSchedules", "periods left and amount of each, by pool and reward currency")])
P("Y02", "Farming stake is what an account has locked; claims pay what the pool owes",
  "Depositing reserves the caller's whole free balance of the pool's currency and stakes exactly that; withdrawing unreserves and unstakes the same amount and fails unless all of it was reserved and staked. "
  "A claim pays the caller exactly what its stake earned, from that pool's own account, whatever order a pool's two currencies are named in.",
  "inputs histories", "every amount and pool", "Tests run one account through one pool.",
  FA, [("stake", FA + "deposit withdraw"), ("claim", FA + "claim")])
P("T01", "Stable pools price by one invariant, solved by the published recurrences",
  "The invariant D of a pool and the balance that keeps it come from the StableSwap recurrences, iterated until they move by one unit at most, over balances brought to eighteen decimals. "
  "The amplification moves linearly between its start and its target and stays at the target; no result that overflowed is used.",
  "inputs", "every balance, amplification and time", "Tests compare a few published values.",
  ST, [("invariant", ST + "utils.rs get_d get_y get_yd"), ("inputs", ST + "utils.rs xp get_a_precise calculate_fee_per_token do_transfer_in")])
P("T02", "Deposits and withdrawals of a stable pool mint and burn shares by its invariant",
  "A deposit mints in proportion to the growth of the invariant after fees for imbalance; a withdrawal burns in proportion to its fall, rounded against the one who leaves. "
  "The pool's balances change by what moved and the admin's part of the fees, the user's limits hold, and the shares moved are exactly those computed.",
  "inputs histories", "every pool state and amount", "Tests run deposits and withdrawals of a few sizes.",
  ST, [("deposit", ST + "base_pool.rs base_pool_add_liquidity"), ("withdraw", ST + "base_pool.rs base_pool_remove_liquidity_one_currency base_pool_remove_liquidity_imbalance")])
P("T03", "A swap in a stable pool pays what keeps the invariant, less the fee",
  "The output is the balance freed at an unchanged invariant, less one unit and the fee, rounded down, never under the user's minimum; it is computed from what arrived, not from what was asked. "
  "The pool's balances change by exactly the input, the output and the admin's part of the fee, and a quote is no better than the swap.",
  "inputs", "every pool state, pair and amount", "Tests swap a few amounts in balanced pools.",
  ST, [("swap", ST + "base_pool.rs base_pool_swap calculate_base_swap_amount")])
P("T04", "A meta pool counts its base pool's shares at a price that is never stale",
  "The last currency of a meta pool counts at the base pool's virtual price, read again once the cached one has expired, by operations and quotes alike. "
  "Swaps, deposits and withdrawals follow the same invariant and accounting as in a base pool at that price.",
  "inputs histories", "every pool state, price and amount", "Tests run with a fresh price and a few amounts.",
  ST, [("price", ST + "meta_pool.rs meta_pool_update_virtual_price meta_pool_base_virtual_price"), ("operations", ST + "meta_pool.rs meta_pool_swap meta_pool_add_liquidity meta_pool_remove_liquidity_imbalance")])
P("T05", "Operations across a meta pool and its base pool pass on everything they pay",
  "Only a meta pool's own base pool may be combined with it. What one pool pays is exactly what the other gets, the user's minimum applies to what is finally paid, "
  "the final payment goes to the recipient, and asking for the base shares themselves works like any other currency.",
  "inputs", "every pair of pools, currencies and amounts", "Tests use fresh pools and accounts without other balances.",
  ST, [("liquidity", ST + "lib.rs inner_add_pool_and_base_pool_liquidity inner_remove_pool_and_base_pool_liquidity"), ("swap", ST + "lib.rs inner_swap_pool_from_base inner_swap_pool_to_base")])
P("T06", "Underlying swaps of a meta pool pay and report exactly what both pools computed",
  "A swap between a meta pool's currencies and its base pool's goes through base shares priced at the virtual price; within the base pool it is swapped there. "
  "What is transferred, returned and reported is what the last step paid, at least the minimum; balances change by what moved and the admin's fee, and quotes follow the same path.",
  "inputs", "every direction, pool state and amount", "Tests take each direction with a few amounts.",
  ST, [("swap", ST + "meta_pool.rs meta_pool_swap_underlying"), ("quotes", ST + "meta_pool.rs calculate_meta_swap_underlying calculate_meta_currency_amount")])
P("T07", "Stable pool calls act on the named pool for the caller, before the deadline",
  "Every call is signed, fails after its deadline and passes the caller's own account, amounts, limits and recipient to the operation of the pool's kind, whose result is stored under the same id. "
  "Shares redeemed for a part of everything pay at least each minimum, are burned from the caller, and leave the pool's balances lower by what was paid; other pallets trade through the same operations.",
  "inputs", "every call and pool kind", "Tests call each with typical arguments.",
  ST, [("dispatch", ST + "lib.rs inner_add_liquidity inner_swap inner_remove_liquidity"), ("traits", ST + "traits.rs StableAmmApi")])
P("T08", "Stable pools are created and governed by root, within bounds",
  "Only root creates pools and changes fees, receiver or amplification: fees at most 1% (all of it for the admin), amplification positive, under a million, changing over a day at least and at most tenfold, without a jump when it stops. "
  "A pool has its own account, share currency and id; the admin gets what its account has beyond the providers' balances, and nothing else writes pools.",
  "inputs histories", "every call and history", "Tests change each parameter once.",
  ST, [("creation", ST + "base_pool.rs inner_create_base_pool"), ("governance", ST + "lib.rs create_meta_pool ramp_a stop_ramp_a withdraw_admin_fee")])
P("M01", "Fees paid in another currency are bought within the payer's limit, taken once",
  "Only a call that asks for it has something swapped: from the payer, to the payer, for exactly the fee and at most the amount given, along a path that ends in the native currency, before the fee is taken. "
  "The fee itself is taken and refunded as for any call, and the wrapped call runs with the caller's own origin.",
  "inputs", "every call, fee and path", "Tests pay one fee with a chosen path.",
  MP, [("fee", MP + "withdraw_fee correct_and_deposit_fee"), ("wrapped call", MP + "with_fee_swap_path")])
P("M02", "Routed swaps chain their trades and respect the user's limit and deadline",
  "Along a route of trades in both exchanges each trade spends exactly what the one before paid out, in the same currency, and only the last pays the recipient; a route whose currencies do not connect is refused. "
  "The swap fails after its deadline and when the last trade pays less than the minimum.",
  "inputs", "every route and amount", "Tests run a few fixed routes.",
  SR, [("route", SR + "swap_exact_tokens_for_tokens validate_routes"), ("trades", SR + "stable_swap swap currency_index_from_stable_pool")])
DM = "crates/democracy/src/lib.rs "
P("K01", "Proposal deposits are taken once and returned to everybody",
  "Proposing costs at least the minimum deposit, and seconding exactly what the proposer paid; each is reserved from the one who calls and recorded with the proposal, within the limits on proposals and depositors. "
  "Whenever a proposal leaves the queue, by cancellation, fast track or launch, its deposits are deleted and every depositor's is unreserved. "
  "Only its proposer or root cancels a proposal.",
  "histories", "every set of proposals and depositors", "Tests second once or twice and cancel one proposal.",
  DM, [("deposits", DM + "propose second cancel_proposal fast_track_with_voting_period launch_public clear_public_proposals")],
  state=[("PublicProps", "proposals waiting for a referendum"), ("DepositOf", "depositors of a proposal and the deposit each made")])
P("K02", "Each account's vote counts once, with its power, while voting is open",
  "A vote counts in the tally with at most the voter's balance, replaces the voter's earlier vote on that referendum, and is remembered exactly as it was counted. "
  "Removing it subtracts exactly that while the referendum is open; a decided referendum keeps its tally. "
  "Power is what the escrow pallet reports.",
  "histories", "every sequence of votes and removals by any number of accounts", "Tests vote with a few fixed accounts.",
  DM + "crates/democracy/src/types.rs", [("votes", DM + "vote try_vote remove_vote try_remove_vote"), ("tally", "crates/democracy/src/types.rs Tally")],
  state=[("VotingOf", "votes an account gave"), ("ReferendumInfoOf", "an open referendum's tally or the result of a finished one")])
P("K03", "A referendum is decided once, at its end, by the tally and its threshold",
  "Every open referendum that ends in a block is approved exactly when its tally meets its threshold against all voting power, with low turnout shifting the majority needed, and is closed with that result. "
  "An approved proposal is scheduled for root after its delay and never before the next block; a rejected one is not, and its content is released. "
  "Referenda that are finished or cancelled are not read again.",
  "inputs histories", "every tally, threshold, delay and set of referenda", "Tests decide referenda with a few votes.",
  DM + "crates/democracy/src/vote_threshold.rs", [("decision", DM + "begin_block bake_referendum maturing_referenda_at_inner"), ("threshold", "crates/democracy/src/vote_threshold.rs approved")],
  state=[("ReferendumInfoOf", "an open referendum's tally or the result of a finished one"), ("LowestUnbaked", "first referendum that may be open"), ("ReferendumCount", "number of referenda so far")],
  note="The rule covers the decision and its inputs; the continued-fraction comparison of two ratios inside approved is not interpreted.")
P("K04", "Referenda start from queued proposals, in time, and only as authorised",
  "Once per launch period the proposals with the largest total deposits become referenda, for the whole voting period and passing only by a supermajority; the fast track origin may table a proposal or shorten a vote, never below the fast track period and never prolonging it. "
  "Each referendum has its own number and starts without votes. Only root cancels referenda, clears the queue or spends from the treasury.",
  "inputs histories", "every caller, time and set of proposals", "Tests launch one or two proposals.",
  DM, [("launch", DM + "launch_public launch_next should_launch backing_for inject_referendum"), ("fast track", DM + "fast_track fast_track_referendum table_proposal"), ("root", DM + "cancel_referendum clear_public_proposals spend_from_treasury")],
  state=[("PublicProps", "proposals waiting for a referendum"), ("NextLaunchTimestamp", "time of the next launch"), ("ReferendumCount", "number of referenda so far"), ("ReferendumInfoOf", "an open referendum's tally or the result of a finished one")])
CS = "crates/collator-selection/src/lib.rs "
P("J01", "A collator's bond is reserved once, and exactly it is returned",
  "An account becomes a candidate only by itself, with known session keys, while places are free, and if it is neither a candidate nor a fixed collator; the current bond is reserved from it and recorded with it. "
  "Whoever leaves or is kicked gets back exactly the bond recorded for it and is a candidate no longer. "
  "Nobody leaves below the minimum of candidates, and only governance sets the bond and the number of places.",
  "histories", "every sequence of registrations, departures, kicks and changes of the bond", "Tests register and remove one or two candidates under one bond.",
  CS, [("registration", CS + "register_as_candidate"), ("departure", CS + "leave_intent try_remove_candidate"), ("governance", CS + "set_candidacy_bond set_desired_candidates")],
  state=[("Candidates", "candidates and the bond each has reserved"), ("CandidacyBond", "the bond of the next candidate")])
P("J02", "Sessions are run by fixed collators and candidates that stay active",
  "Each session is run by the fixed collators and by the candidates that authored a block within the threshold and own at least the bond; the others are kicked, but never below the minimum of candidates. "
  "The author of a block receives half of the pot above its minimum balance and counts as active from then on. "
  "Fixed collators are named by governance only and have session keys.",
  "schedules histories", "every order of blocks, sessions and departures", "Tests kick one stale candidate.",
  CS, [("sessions", CS + "kick_stale_candidates assemble_collators new_session"), ("authors", CS + "note_author"), ("fixed collators", CS + "set_invulnerables build")],
  state=[("LastAuthoredBlock", "block in which a collator was last active"), ("Invulnerables", "fixed collators")])
RC = "parachain/runtime/common/src/"
P("U01", "Contracts run only while enabled, dispatch no calls and never panic the chain",
  "While contracts are disabled nothing is uploaded, called or instantiated over the runtime API; contracts dispatch no runtime calls and their currency is the native one with its own rules. "
  "The only chain extension verifies a Bitcoin payment: it pays for the work, refuses input that does not decode instead of panicking, and returns exactly what the relay proves, or nothing.",
  "inputs programs", "every contract, input and configuration", "There are no tests of the contracts' runtime side.",
  RK + "contracts.rs " + RTL, [("extension", RK + "contracts.rs call"), ("currency", RK + "contracts.rs NativeCurrencyWithEd"), ("switch", RK + "lib.rs bare_call bare_instantiate")])
P("U02", "RPC answers are the runtime's own, for the block and arguments asked for",
  "Every RPC method asks the runtime at the block given, or the best block if none is, passes its arguments unchanged and in order, and returns the runtime's answer without altering it. "
  "Lookups by index or currency give exactly the matching entry.",
  "inputs", "every method, block and argument", "There are no tests of the RPC servers.",
  "crates/loans/rpc/src/lib.rs crates/dex-stable/rpc/src/lib.rs crates/dex-general/rpc/src/lib.rs crates/vault-registry/rpc/src/lib.rs crates/reward/rpc/src/lib.rs crates/issue/rpc/src/lib.rs crates/redeem/rpc/src/lib.rs crates/replace/rpc/src/lib.rs crates/oracle/rpc/src/lib.rs crates/escrow/rpc/src/lib.rs crates/btc-relay/rpc/src/lib.rs",
  [("servers", "crates/vault-registry/rpc/src/lib.rs get_vault_collateral"), ("lookups", "crates/dex-stable/rpc/src/lib.rs get_currency_index get_admin_balance")])
P("U03", "Runtime queries return the pallets' own results, alike in both runtimes",
  "Each query passes its arguments in order to the pallet computation that dispatchables rely on, and returns that result, wrapped but unscaled; both runtimes answer alike. "
  "An estimate of farming rewards first removes what has already been earned.",
  "inputs configurations", "every query in both runtimes", "There are no tests of the runtime queries.",
  RTL, [("queries", RK + "lib.rs get_vault_collateral get_a_precise"), ("estimate", RK + "lib.rs estimate_farming_reward")])
P("U04", "Ethereum transactions act only as their signer and create nothing while disabled",
  "Only an Ethereum transaction carries its own signature; it is validated and applied as the signer recovered from it and as nobody else, and other calls never take that path. "
  "While creation is disabled every transaction type that creates a contract is refused, by the pool, in blocks and over RPC. "
  "Precompiles sit at Ethereum's addresses, and exactly those that execute are reported as such.",
  "inputs", "every transaction, caller and address", "There are no tests of the Ethereum side of the runtimes.",
  RC + "evm/mod.rs " + RC + "evm/precompiles.rs " + RI + "evm.rs " + RK + "evm.rs", [("transactions", RK + "lib.rs check_self_contained apply_self_contained"), ("precompiles", RC + "evm/precompiles.rs execute is_precompile")])
P("U05", "Reward rate estimates count one year of new rewards over the right stake",
  "An estimate first removes what was earned before, applies the lock asked for, distributes a year's worth of the current rewards and divides what the account would earn by what it has locked or staked. "
  "A division that fails gives zero, never a panic.",
  "inputs histories", "every account, lock and vault", "There are no tests of the estimates.",
  RC + "lib.rs", [("escrow", RC + "lib.rs estimate_escrow_reward_rate"), ("vaults", RC + "lib.rs estimate_vault_reward_rate")])
P("U06", "Incoming messages pay for execution, dispatch no calls, act from own accounts",
  "A message is executed only if its weight is paid for in an accepted asset at its fixed rate, and never if it contains a call to dispatch. "
  "Each location acts from its own account: the relay, each sibling and each local account, with no aliases, on the network the chain is really connected to. "
  "Other assets pay the rate that governance set for them, and fees go to the treasury or the block author.",
  "inputs configurations", "every message, asset and origin", "Integration tests send a few well-formed messages.",
  RTX + RC + "lib.rs", [("barrier", RC + "lib.rs should_execute"), ("fees", RK + "xcm_config.rs get_fee_per_second"), ("origins", RK + "xcm_config.rs OriginConverter")])
P("T09", "Stable pool queries report what is stored, by the pool's own index and scale",
  "A query for a pool's currencies, shares, balances, multipliers or amplification reports what is stored and in force, in the order of the pool's currencies; admin balances are what the account has beyond the providers' balances. "
  "A pool that does not exist, or an index out of range, gives an empty answer and never a panic.",
  "inputs", "every pool and index", "Tests query one pool's virtual price and amplification.",
  ST, [("queries", ST + "rpc.rs get_currency get_a_precise_by_id get_admin_balances")])
P("Q05", "Exchange quotes are computed from the reserves exactly as trades are",
  "A quoted amount is that of the last hop, or of the first when asking for the input, along the same path computation that swaps use, and zero when that fails. "
  "Estimated shares and withdrawals, and the pair's reported reserves and supply, use the pair's own account, shares and balances in the order asked for.",
  "inputs", "every pair, path and amount", "Tests quote one pair.",
  DX + "rpc.rs " + DX + "lib.rs", [("quotes", DX + "rpc.rs supply_out_amount desired_in_amount"), ("liquidity", DX + "rpc.rs get_estimate_lptoken calculate_remove_liquidity get_pair_by_asset_id")])
P("L09", "Market data handed to other pallets and to users is the market's own",
  "Rates, totals and factors reported for a market are those of that market, each under its own name, and a market that does not exist has none. "
  "When a market's exchange rate changes, what depends on its lend token is told; an account's surplus and shortfall are reported in that order.",
  "inputs", "every market and account", "Tests compare one market.",
  LOD + "lib.rs", [("data", LOD + "lib.rs get_market_info get_market_status get_full_interest_rate"), ("rates", LOD + "lib.rs on_exchange_rate_change")])
P("H01", "The chain's own accounts are distinct, used by their pallet only, and kept alive",
  "Every pallet that holds funds derives its account from an id of its own, shared with no other pallet of the runtime. "
  "These accounts are never reaped as dust, whatever they hold, and the dust of others goes to the fee account rather than disappearing.",
  "configurations", "every account of both runtimes", "Tests use mock runtimes with ids of their own.",
  RTL + RI + "dex.rs " + RK + "dex.rs", [("ids", RK + "lib.rs get_all_module_accounts"), ("dust", RK + "lib.rs contains")])
P("H02", "Exchanges trade joinable currencies, each pair and pool with its own shares",
  "A pair's shares are the currency joined from its two assets and a stable pool's are named by its id, so no two share a currency. "
  "Only currencies that can be joined form pairs, nobody holds shares of a pool before it exists, and routed swaps use the same two exchanges.",
  "inputs configurations", "every currency and pool", "Tests use mock currencies.",
  RI + "dex.rs " + RK + "dex.rs", [("shares", RK + "dex.rs generate_lp_asset_id generate_by_pool_id"), ("assets", RK + "dex.rs validate_asset validate_pool_lp_currency")])
P("H03", "A block's time is its relay slot's; one block per slot, by whoever holds it",
  "A block is valid only if its timestamp agrees with the slot of the relay block it builds on and with its own slot, and relay blocks never go back. "
  "All periods counted in blocks are multiples of the real block time, and sessions rotate periodically among the collators.",
  "schedules configurations", "every block and relay parent", "There are no tests of block production.",
  RTL + RC + "lib.rs " + RI + "constants.rs " + RK + "constants.rs", [("timestamp", RK + "lib.rs check_inherents"), ("slot", RC + "lib.rs on_timestamp_set"), ("units", RK + "constants.rs")])
P("H04", "Every signed transaction is checked, ordered, weighed and paid for",
  "A signed transaction is for this chain, this version and one account nonce, valid in time, within the block's weight and paid for, by weight and by length; the pool, the builder and the importer apply the same rules. "
  "Stored items are paid for by deposits per item and byte, and vested transfers start from the named accounts only.",
  "inputs configurations", "every transaction and block", "Tests dispatch calls directly.",
  RTL + RI + "constants.rs " + RK + "constants.rs", [("pipeline", RK + "lib.rs execute_block validate_transaction apply_extrinsic"), ("deposits", RK + "constants.rs deposit"), ("vesting", RK + "lib.rs try_origin")])
