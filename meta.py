"""The properties, in prose. mk.py turns this into properties.jsonl and MANIFEST.json."""
P = {}
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where="src/" + w) for n, w in mech], **({"observe_at": observe} if observe else {})))
U7, U37, UM = "core_nft/src/updates/icrc7.rs", "core_nft/src/updates/icrc37.rs", "core_nft/src/updates/management.rs"
Q7, Q37, ST, NFT = "core_nft/src/queries/icrc7.rs", "core_nft/src/queries/icrc37.rs", "core_nft/src/state.rs", "core_nft/src/types/nft.rs"
Q21, Q10, INIT = "core_nft/src/queries/icrc21.rs", "core_nft/src/queries/icrc10.rs", "core_nft/src/lifecycle/init.rs"
NOPIC = "The stable test suite has only unit tests of helper types; the integration tests need a replica that is not available, and even they try a handful of fixed accounts and histories."

p("C01", "icrc7_transfer moves a token only for its owner, exactly as asked",
  "A token changes hands through icrc7_transfer only when the caller is its current owner, and then it belongs to exactly the requested account, every other token and balance stays as it was, and the reply for that request says Ok. Requests by anyone else, to the anonymous principal, to the current owner account itself or for a token that does not exist change nothing and are answered with an error, and a request by the owner that has none of these faults is served (an identical repeat inside one call counts as a duplicate).",
  ["inputs", "histories"], "every caller, recipient account (owner and subaccount), token id and short sequence or batch of transfers",
  NOPIC, [U7, NFT, ST], [("ownership and recipient checks", U7 + " transfer_nft"), ("owner index", ST + " tokens_list_by_owner")],
  ["icrc7_transfer", "icrc7_owner_of", "icrc7_balance_of", "icrc7_tokens_of"])
p("C02", "icrc37_transfer_from needs the owner or a live approval",
  "icrc37_transfer_from succeeds exactly when the named source account owns the token and the spender account is that owner or holds an unexpired approval for it (for the token, or for the whole collection of that owner), the destination is not anonymous and differs from the source. When it fails nobody's ownership changes; when it succeeds only the named token moves, to the named destination.",
  ["inputs", "histories"], "every spender, source and destination account, token, and up to two token or collection approvals with any expiry around the time of use",
  NOPIC, [U37, ST], [("approval lookup and expiry", U37 + " transfer_from")], ["icrc37_transfer_from", "icrc7_owner_of"])
p("C03", "A token's approvals end when it changes owner or is burnt",
  "When a token changes owner, by whatever route, or is burnt, every approval given for it by the previous owner is void: no approval is listed or reported for it and no former spender can move it, not even when it later returns to the owner who gave the approval.",
  ["inputs", "histories"], "every owner, spender and recipient, and the three routes of transfer plus burning, with and without the token coming back",
  NOPIC, [U37, U7, UM], [("approval clean-up", U37 + " transfer_from"), ("approval clean-up", U7 + " transfer_nft"), ("approval clean-up", UM + " burn_nft")])
p("C04", "Only the owner account grants or revokes token approvals",
  "A token approval comes into being or is withdrawn only on a call by the account that currently owns the token, and a refused grant or revoke leaves every approval as it was. A granted approval is listed with its spender; a revoked one is gone from the listing and useless to its spender at once, and approvals not named stay in force.",
  ["inputs", "histories"], "every caller, subaccount, spender and token id of a grant or a revoke, against zero or two existing approvals",
  NOPIC, [U37, Q37], [("owner check", U37 + " approve_token"), ("owner check and removal", U37 + " revoke_token_approvals")])
p("C05", "A collection approval covers exactly the tokens of the account that gave it",
  "A collection approval lets the spender move every token the granting account owns at the time of use, including tokens acquired later, and none that it does not own or has sold. It stays in force while the granter still owns tokens, until it is revoked, and revoking affects only approvals given by the caller's own account.",
  ["inputs", "histories"], "every caller, subaccount and spender of a grant or revoke, tokens acquired and sold in between, repeated use",
  NOPIC, [U37, Q37], [("collection approvals by granting account", U37 + " approve_collection"), ("use of collection approvals", U37 + " transfer_from"), ("revocation", U37 + " revoke_collection_approvals")])
p("C06", "icrc37_is_approved agrees with what icrc37_transfer_from does",
  "At any time icrc37_is_approved answers true for a spender account and an existing token exactly when that spender's transfer_from of the token, from its owner to another non-anonymous account, would succeed at that time; for tokens that do not exist it answers false.",
  ["inputs", "histories"], "every spender and owner account, and no, a token or a collection approval with any expiry around the time of the query",
  NOPIC, [Q37, U37], [("approval lookup", Q37 + " icrc37_is_approved"), ("approval lookup", U37 + " transfer_from")])

MEM, GRD, MET, PERMF, UTIL = "core_nft/src/memory.rs", "core_nft/src/guards.rs", "core_nft/src/types/metadata.rs", "core_nft/src/types/permissions.rs", "core_nft/src/utils.rs"
Q3, CUST = "core_nft/src/queries/icrc3.rs", "core_nft/src/types/value_custom.rs"
p("C07", "All ownership queries agree after any history",
  "After any sequence of mints, transfers, transfer_froms and burns, icrc7_owner_of, icrc7_balance_of, icrc7_tokens, icrc7_tokens_of and icrc7_total_supply all describe one and the same assignment of tokens to accounts: each live token has exactly one owner, every balance is the number of tokens owned, every listing is complete, duplicate-free and ascending, and the assignment is the one the accepted calls produced.",
  ["inputs", "histories"], "histories of two (thorough: three) arbitrary operations by anyone on tokens of arbitrary accounts; one operation in a collection of 260 tokens",
  NOPIC, [ST, U7, U37, UM, Q7], [("token list and owner index kept in step", ST + " tokens_list, tokens_list_by_owner"), ("queries", Q7)])
p("C08", "Minting gives fresh consecutive ids and respects cap and batch limit",
  "A successful mint gives its tokens the next ids in order, starting from 1, never one that was ever used before (not even when that token has been burnt), to exactly the accounts named. The supply never exceeds the supply cap and a batch larger than the update limit is refused; a refused mint creates nothing.",
  ["inputs", "histories"], "any cap and batch limit below 256, two batches of up to three tokens for arbitrary accounts, burns in between",
  NOPIC, [UM, ST], [("id counter and cap check", UM + " mint"), ("counter", ST + " last_token_id")])
p("C09", "Only the owner burns a token, and a burnt token is gone for good",
  "burn_nft succeeds only for the token's owner. Afterwards the token has no owner, no balance, listing, metadata or approval mentions it, the supply is one less, and every call naming it is refused; other tokens are untouched. A refused burn changes nothing.",
  ["inputs", "histories"], "every caller, owner account and token id", NOPIC, [UM, NFT, ST], [("owner check and clean-up", UM + " burn_nft")])
p("C10", "Requests are accepted exactly within the transaction window",
  "A transfer, transfer_from, approve or revoke carrying a creation time is answered TooOld exactly when that time is earlier than now minus the transaction window minus the permitted drift, and CreatedInFuture (with the current time) exactly when it is later than now plus the drift; otherwise its age does not make it fail. This uses the configured window and drift, or 10 s and 50 ms by default.",
  ["inputs"], "every 64-bit creation time outside the window, all times around its borders and inside it in samples of 128 ns, for six methods and eight configurations, four of them with windows or drifts near 2^64 ns",
  NOPIC, [U7, U37, UTIL], [("time checks", U7 + " transfer_nft"), ("time checks", U37 + " approve, revoke, transfer_from")])
p("C11", "Memo, update batch and query batch limits are enforced",
  "A mint or transfer is refused because of its memo exactly when the memo is longer than the configured maximum, and an accepted memo is recorded in the block unchanged. A transfer call performs at most the configured number of requests (none at all if atomic and over the limit) and answers each one it performs; a query with more questions than the limit is refused and any other is answered question by question.",
  ["inputs"], "every limit below 256, memos of up to 4 bytes of any content, batches of up to three requests or questions; the default limits and limits from 2^31 to 2^64-1 with batches of about a hundred",
  NOPIC, [U7, UM, Q7], [("batch and memo checks", U7 + " icrc7_transfer"), ("memo check", UM + " mint"), ("query limit", Q7)])
p("C12", "At most five calls per token within 60 ms",
  "A transfer, transfer_from or approve naming a token is refused by the rate limiter exactly when five calls naming that token were let through within the 60 ms before it, whatever mix of methods; calls about other tokens are not affected.",
  ["schedules", "histories"], "all timings (at nanosecond resolution, within 134 ms) of six or seven calls, in three mixes of methods",
  NOPIC, [GRD, U7, U37], [("sliding window", GRD + " SlidingWindowGuard")])
p("C13", "Every accepted operation leaves exactly one matching block, refused ones leave none",
  "Every mint, transfer, transfer_from, burn, metadata update, approval and revocation that is answered Ok appends exactly one block to the transaction log whose type, token id, parties, expiry, memo and times are those of the operation; a batch leaves one such block per accepted request, in order; one that is refused appends nothing and changes no ownership. Earlier blocks never change.",
  ["inputs", "histories"], "every caller, account, spender, token id and expiry offset, for ten kinds of call on two tokens, and five kinds of batches of two",
  NOPIC, [U7, U37, UM], [("log entry per operation", U7 + " icrc3_add_transaction"), ("log entry per operation", U37), ("log entry per operation", UM)], ["icrc3_get_blocks"])
p("C14", "icrc3_get_blocks returns exactly the blocks asked for",
  "icrc3_get_blocks answers each requested range with exactly the existing blocks of that range, in order, each under its own id and with the content it had when it was first visible, and the log length is the number of blocks ever appended.",
  ["inputs", "histories"], "one or two ranges with any start and length below 7 over a log of four blocks", NOPIC, [Q3, U7], [("query", Q3 + " icrc3_get_blocks")])
p("C15", "Management calls need their permission, and only authorities change permissions",
  "Each management call is served only for callers holding the permission it is documented to need (minting, metadata, collection metadata, uploads, reading uploads, authorities); for everyone else it is refused without any effect or outgoing call. Permissions change only through grant and revoke by holders of ManageAuthorities, take effect at once, affect only the named principal and permission, and has_permission and get_user_permissions report them truthfully.",
  ["inputs", "histories"], "every caller and holder principal for 13 methods; every two-step sequence of grants and revokes of three permissions",
  NOPIC, [GRD, PERMF, UM], [("guards", GRD + " caller_has_*_permission"), ("permission table", PERMF)])
IXB, IXI, IXG, IXJ = ["index_icrc7/src/" + f for f in ("blocks.rs", "index.rs", "update/get_blocks.rs", "jobs.rs")]
SUB, HTTP, PUP = "core_nft/src/types/sub_canister.rs", "core_nft/src/types/http.rs", "core_nft/src/lifecycle/post_upgrade.rs"
p("C17", "One management call at a time, and management never gets stuck",
  "While a management call is waiting for another canister every other management call is answered ConcurrentManagementCall and has no effect, and all other calls are served. When the call ends, however it ends, or the canister is upgraded meanwhile, management calls are available again.",
  ["schedules", "crash points", "fault schedules"], "any of four long calls stopped at any of its outgoing calls, any of ten other management calls by any permitted principals, and four ways of ending including an upgrade",
  NOPIC, [GRD, UM, PUP], [("guard taken and released", GRD + " GuardManagement"), ("upgrade", PUP)])
p("C18", "An upload advances only as its storage canister confirms",
  "The status of an upload changes only by a management call answered Ok, and such a call is answered Ok exactly when it is allowed in that status (begin a new path; store while unfinished; finalize after a chunk; cancel while unfinished) and the storage canister holding the file accepted precisely that request. Refusals, unreachable canisters and upgrades leave every status as it was; requests for a file all go to the canister that accepted it; files over 2 GiB or beyond a canister's room are not sent there; and no storage canister that was created is ever forgotten or wasted.",
  ["inputs", "histories", "fault schedules"], "histories of up to four upload calls on two files, with every answer of the storage and management canisters, any sizes, chunk contents, and upgrades",
  NOPIC, [UM, SUB], [("state machine", UM + " init_upload, store_chunk, finalize_upload, cancel_upload"), ("choice and creation of storage canisters", SUB)])
p("C19", "Finalized files, and only they, are served over HTTP, also after an upgrade",
  "An HTTP request for a path is redirected exactly when a file was finalized under it, to that path on the canister that holds the file; the pages /metrics, /logs and /traces answer; and the certified data covers the same set of pages and redirections after an upgrade as before it.",
  ["histories", "crash points"], "two files in any states of their lives, any further upload call, and an upgrade", NOPIC, [HTTP, "core_nft/src/queries/http_request.rs", PUP, UM], [("redirections", HTTP + " add_redirection"), ("certification", HTTP + " certify_all_assets"), ("restored after an upgrade", PUP)])
p("C20", "Token metadata reads back exactly as written, for the right token only",
  "The metadata given to a token at minting, or by the last accepted update_nft_metadata, is what icrc7_token_metadata returns for it, for every kind of value, until it is replaced or the token burnt; an update replaces all of that token's metadata and never touches another token's, transfers keep it, and tokens that do not exist have none and cannot be given any.",
  ["inputs", "histories"], "values of all six kinds, with any byte of content in short values and number borders up to 64 bits; two arbitrary updates on two tokens followed by a transfer",
  NOPIC, [MET, CUST, UM, Q7], [("storage per token and key", MET), ("value encoding", CUST), ("update", UM + " update_nft_metadata")])
p("C21", "Collection configuration changes field by field and is reported truthfully",
  "update_collection_metadata changes exactly the fields it names to the values it names; every other field keeps its value, and the individual queries and icrc7_collection_metadata report the same configuration at all times. The collection's own metadata, given at installation or by an update, is reported entry by entry in icrc7_collection_metadata and cannot override the standard entries.",
  ["inputs", "histories"], "any one or two of 15 fields, numbers 1 to 127 or any letter, over two initial configurations", NOPIC, [UM, Q7, ST], [("update", UM + " update_collection_metadata"), ("queries", Q7)])
p("C22", "An upgrade loses nothing",
  "After a canister upgrade every query (ownership, approvals, metadata, permissions, configuration, transaction log) answers as before it, the next token id and block id continue where they were, approvals and ownership keep working, and the upgrade itself never fails.",
  ["histories", "crash points"], "eight kinds of history (mints, approvals, metadata of every kind of value, permissions, burns) for arbitrary accounts, followed by one (thorough: also two) upgrades",
  NOPIC, ["core_nft/src/lifecycle/pre_upgrade.rs", "core_nft/src/lifecycle/post_upgrade.rs", ST, MEM, MET], [("state saved", "core_nft/src/lifecycle/pre_upgrade.rs"), ("state restored", "core_nft/src/lifecycle/post_upgrade.rs")])
p("C23", "Token listings page exactly",
  "icrc7_tokens and icrc7_tokens_of return, in ascending order, exactly the live tokens (of that account) with ids greater than prev, cut off after take of them, or after the configured default when take is absent; a take above the configured maximum is refused. So walking page by page shows every token exactly once.",
  ["inputs", "histories"], "four or five tokens of arbitrary owners, with and without a burnt one, any prev, take and configured limits within the bounds; 230 tokens with the default limits, 104 with limits from 2^31 to 2^64-1",
  NOPIC, [Q7, ST], [("paging", Q7 + " icrc7_tokens, icrc7_tokens_of")], ["icrc7_tokens", "icrc7_tokens_of"])
p("C24", "Approval listings show exactly the approvals in place",
  "icrc37_get_token_approvals and icrc37_get_collection_approvals list every approval given for that token or by that account and not revoked, once each, with its spender, source subaccount, expiry, memo and the time it was given, newest first and then by spender; prev continues after the named spender and take cuts the page, and nothing else is listed.",
  ["inputs", "histories"], "three approvals for arbitrary spenders, at one or several moments, any prev and take; two approvals followed by any revocation",
  NOPIC, [Q37, U37], [("listing", Q37 + " icrc37_get_token_approvals, icrc37_get_collection_approvals")])
p("C25", "Approval limits hold",
  "A token, or an account's collection, never carries more approvals than the configured maximum (10 by default), and while there is room a proper approval is not refused; one revocation call performs at most the configured number of revocations, the first ones of the batch, and leaves the rest in force. Both limits are reported truthfully and cannot be installed as zero.",
  ["inputs", "histories"], "any cap from 1 to 3 with four approvals to arbitrary spenders, any revocation limit with batches of up to three; limits from 2^31 to 2^64-1 with twelve approvals",
  NOPIC, [U37, Q37, "core_nft/src/lifecycle/init.rs"], [("cap", U37 + " approve_token, approve_collection"), ("revocation limit", U37 + " icrc37_revoke_token_approvals, icrc37_revoke_collection_approvals")])
p("C26", "The daily clean-up cancels stale unfinished uploads and nothing else",
  "The daily clean-up asks a file's storage canister to cancel it exactly when its upload was begun more than a day ago and was not finalized; once that is confirmed the upload is gone and its path can be used again, and if it is refused nothing changes. Fresh uploads and finalized files are never touched.",
  ["histories", "schedules", "fault schedules"], "two files in any states, begun at any times within a day of each other to the nanosecond, over two clean-ups, with every answer of the storage canister",
  NOPIC, ["core_nft/src/jobs/upload_garbage_collector.rs", UM, "core_nft/src/types/sub_canister.rs"], [("clean-up", "core_nft/src/jobs/upload_garbage_collector.rs")])
p("C27", "Index filters find exactly the matching blocks",
  "get_blocks of the index canister with filters returns, among the blocks indexed, exactly those that name that principal as sender, receiver or spender, that name that token, or are of that type, each once; several filters return the blocks that match all of them. This holds for the blocks the real ledger writes for every kind of operation.",
  ["inputs", "histories"], "blocks of all nine kinds with any principals (equal or not), tokens below 24, one or two filters; and the real ledger and index together after any one operation",
  NOPIC, [IXB, IXI, IXG], [("what a block is filed under", IXB + " extract_accounts, extract_token_id"), ("filing", IXI + " add_block_to_index"), ("answering", IXG + " get_blocks_with_filters")], ["get_blocks"])
p("C28", "The index follows the ledger without gaps or repeats",
  "At any time status reports a number n such that exactly the ledger's first n blocks are indexed, each once; n never goes back, whatever the order in which overlapping index jobs, partial, archived, late or missing answers, readers and upgrades take turns; and an undisturbed job brings n to the end of the ledger, or a hundred blocks further if the ledger is longer than that.",
  ["schedules", "fault schedules", "crash points", "histories"], "four (thorough: five) steps on a ledger of up to six blocks; four jobs on ledgers of 99 to 230 blocks", NOPIC, [IXJ, IXI, IXB, "index_icrc7/src/lifecycle/post_upgrade.rs"],
  [("index job", IXJ + " update_index"), ("fetching", IXB + " get_all_blocks")])
p("C29", "The index passes blocks on unchanged",
  "Every block the index returns is identical, id and content, to the ledger's block with that id, whether it comes from the ledger, from its archive or from the index's cache, before and after an upgrade, and after the daily cache clean-up, which never disturbs the index.",
  ["inputs", "histories"], "values of all six kinds, numbers to 64 bits, over five readings with an index job, an upgrade and a cache clean-up in between",
  NOPIC, [IXB, "index_icrc7/src/cache.rs", "index_icrc7/src/wrapped_values.rs", IXJ], [("fetching and caching", IXB + " get_all_blocks"), ("cache", "index_icrc7/src/cache.rs"), ("stored form", "index_icrc7/src/wrapped_values.rs CustomValue")])
p("C30", "Index pages are exact and ordered",
  "Without filters get_blocks returns the ledger's blocks start to start+length-1 that exist, or, in descending order, the newest length blocks counted from the last indexed one; with filters it returns the matching blocks at positions start to start+length-1 of the ascending list, for every start and length; always sorted as asked, with total the number of indexed blocks; and only an unreachable ledger makes it fail.",
  ["inputs", "fault schedules"], "five blocks, any number of them indexed or cached, all starts and lengths below 7 and large ones; 230 blocks with starts and lengths at borders", NOPIC, [IXG, IXB], [("paging", IXG), ("fetching in runs", IXB + " get_all_blocks, group_consecutive_block_ids")])
p("C31", "Atomic batches are all or nothing",
  "In a collection with atomic_batch_transfers an icrc7_transfer or icrc37_transfer_from call whose requests are all valid performs them all; if any request is invalid, none is performed: no token changes its owner, nothing is logged, and the caller is answered with errors only or the call fails as a whole. (One transfer repeated within the call counts as invalid.)",
  ["inputs"], "three tokens, calls of up to three requests", NOPIC, [U7, U37], [("icrc7_transfer batch", U7 + " icrc7_transfer"), ("icrc37_transfer_from batch", U37 + " icrc37_transfer_from")])
p("C32", "Consent messages describe the call",
  "icrc21_canister_call_consent_message never traps and changes nothing. For icrc7_transfer, the three approval and revocation pairs of ICRC-37 and icrc37_transfer_from with decodable arguments, including empty ones, it returns a message that names the method and no other, says whether it transfers, approves or revokes, says how many requests there are when there are several, names every spender who would be approved for the whole collection, and returns the caller's preferences metadata; for every other method, and for arguments that do not decode, it answers UnsupportedCanisterCall.",
  ["inputs"], "up to two requests", NOPIC, [Q21], [("dispatch", Q21 + " icrc21_canister_call_consent_message"), ("messages", Q21 + " handle_*_consent")])
p("C33", "The collection announces what it does",
  "icrc3_supported_block_types lists, each once, the type of every block the ledger ever writes, the same before and after any operation or upgrade, and icrc10_supported_standards lists ICRC-3, ICRC-7, ICRC-10, ICRC-21 and ICRC-37 once each.",
  ["inputs"], "one operation of each kind, with any parties, before or after an upgrade", NOPIC, [INIT, Q10], [("block types", INIT + " ICRC3Config"), ("standards", Q10)])
p("C34", "Repeated requests have no second effect",
  "A transfer, approval or revocation that carries a creation time is performed at most once: the same request again, at any later time while that creation time is still accepted under the window then in force, is refused without effect, also across an upgrade; a request that differs in creation time or memo, or that carries no creation time and comes at another moment, is never mistaken for an earlier one; and, the rate limit per token apart, operations are never refused because of how many others came before.",
  ["inputs", "histories", "time"], "one request and its repetition; twelve operations at one instant", NOPIC, [U7, U37, ST], [("window given to the ledger", ST + " update_ledger_window"), ("transactions", U37), ("transfers", U7 + " transfer_nft")])
CU, CC, CMD, CP = "cmdline/src/calls/uploads.rs", "cmdline/src/commands.rs", "cmdline/src/metadata.rs", "cmdline/src/calls/permissions.rs"
NOCLI = "the real terminal, files, network and clap's parsing (stand-ins); files above six bytes"
p("C35", "The command line tool uploads files whole",
  "upload-file announces the file's exact size, SHA-256 and chosen chunk size under the destination path, then sends the file's bytes in order, cut into chunks of exactly the chunk size but for the last, numbered from 0, and then finalizes, however little a single read of the file returns; it succeeds and shows the address exactly when every step was accepted, and stops and fails at the first step the collection refuses, rejects or answers with nonsense; a chunk size of zero sends nothing. upload-metadata does the same under /<hash>.json, for valid metadata only.",
  ["inputs", "fault schedules"], "files of up to six bytes, any chunk sizes up to three or above the file size", NOCLI, [CU, CC], [("upload", CU + " upload_file"), ("metadata upload", CC + " handle_upload_metadata")])
p("C36", "The command line tool mints what was asked",
  "mint sends one request for one token with exactly the owner, the 32-byte subaccount (hexadecimal, either case), the memo and the metadata given: each key:value entry split at its first colon, whole numbers as naturals, negative ones as integers, everything else as text; the ICRC-97 address alone when it is given; or the entries typed in. Wrong owners, subaccounts, entries without a colon or mistyped numbers send nothing and fail; the command succeeds and shows the token's id exactly when the collection minted.",
  ["inputs"], "entries of up to four ASCII characters, memos of up to three, two hexadecimal digits free", NOCLI, [CC, CMD, "cmdline/src/calls/mint.rs"], [("mint", CC + " handle_mint"), ("typed metadata", CMD + " create_metadata_interactive_hashmap")])
p("C37", "The command line tool's permission commands do what they say",
  "permissions grant, revoke and has concern exactly the named principal and permission, for every documented spelling in either case; any other name sends nothing and fails. has shows the collection's answer, list shows exactly the permissions the collection answered, and each fails when the collection refuses.",
  ["inputs"], "every spelling with one character replaced by any other", NOCLI, [CP, CC], [("names", CP + " parse_permission_from_str"), ("commands", CC + " handle_permissions")])
p("C38", "Metadata files are faithful and validated exactly",
  "create-metadata writes one JSON object holding the name, description, image, external address and attributes as given, from the command line or typed in, with finite numbers as numbers and all other values as text, and nothing else; without a description or with a malformed attribute it writes nothing and fails. validate-metadata accepts exactly the objects whose name, description, image and external_url are absent or text and whose attributes, if any, are a list of objects with a textual trait_type, a value, and an absent or textual display_type.",
  ["inputs"], "any two ASCII characters as the name, two attributes out of nine forms; two fields of a document of any kind at a time", NOCLI, [CC, CMD], [("creation", CC + " handle_create_metadata"), ("validation", CMD + " validate_icrc97_metadata")])

p("C39", "The list of uploads is complete",
  "get_all_uploads lists every upload that was begun and not cancelled, once, with the status get_upload_status gives for it, and nothing else; it skips the first prev of them (0 by default) and stops after take (100 by default), for any numbers, so that walking in pages shows each upload exactly once as long as nothing changes in between, also after an upgrade.",
  ["inputs", "histories"], "0, 1, 6 and 104 uploads", NOPIC, [UM, ST], [("listing", UM + " get_all_uploads"), ("upload ledger", ST + " internal_filestorage")], ["get_all_uploads"])

NOT_APPLICABLE = []

# how each property is decided: for DESIGN.md
HOW = {
"C01": "Mint two tokens for symbolic owners, send symbolic transfer batches, compare every reply and the owner of every token afterwards with a two-entry map that applies the property's rule.",
"C02": "Same with one or two approvals of symbolic kind, spender, owner and expiry; the model keeps a list of approvals and says for the symbolic transfer_from whether it must succeed.",
"C03": "An approval, a transfer by each of the three routes (and back), then the old spender's transfer_from must fail and is_approved and the listing be empty.",
"C04": "Arbitrary approve/revoke calls against the model's owner rule; listings and later transfer_froms show whether it took effect.",
"C05": "Collection approvals with tokens acquired, sold and moved in between; model by granting account.",
"C06": "Asks is_approved, then lets the spender try; both answers must agree, at a symbolic time around the expiry.",
"C07": "After histories of all pairs of operation kinds with symbolic parties, every ownership query is compared with the model.",
"C08": "Batches with symbolic cap and limit; ids and owners must be the next ones.",
"C09": "One arbitrary burn; every query and call on the burnt token afterwards.",
"C10": "Time and created_at_time symbolic; TooOld/CreatedInFuture exactly by the formula.",
"C11": "Symbolic limits and sizes against the rule.",
"C12": "Call times symbolic; the oracle is a sliding window over the symbolic times of accepted calls.",
"C13": "The block log before and after one arbitrary call of each kind, field by field.",
"C14": "Symbolic ranges over a known log.",
"C15": "Symbolic caller against a principal with exactly the permission and one with all others; state and outgoing calls observed.",
"C20": "Metadata with symbolic contents read back after each step.",
"C21": "Symbolic choice of fields and values; all queries before and after.",
"C22": "All queries before and after upgrades of histories with symbolic parties, then use of what was kept.",
"C23": "Symbolic prev/take/limits/owners against a filtered list.",
"C24": "Symbolic spenders, times, prev/take against a sorted model list.",
"C25": "Symbolic caps and spenders; symbolic revocation batches.",
"C17": "A long upload call is stopped at each of its outgoing calls; another management call, ordinary calls, and the four ways to end it are played through.",
"C18": "A ledger of two files (status, holder) is advanced by the property's rule; every outgoing call is inspected and answered by the harness in all ways.",
"C19": "Pages are requested for files in all states, before and after an upgrade; the certified root hash is compared.",
"C26": "The time at which the second upload is begun is symbolic; the harness fires the canister's own timers on the first and second day, answers the cancellations in all ways and compares who was asked with the rule; then freed paths are begun again.",
"C27": "The harness plays the ledger with blocks whose principals and token are symbolic and asks with symbolic filters; in a second setting the compiled ledger and the compiled index run side by side and the harness only carries their messages.",
"C28": "Schedules are explored as solver-decided choices of the next step; every type query after every step is compared with the claimed prefix.",
"C29": "A block with symbolic contents is read several times along a history and compared byte by byte.",
"C30": "Symbolic start and length against a slice of the list.",
"C31": "Validity of each request computed by the ownership and approval model of C01/C02 on the state left by the earlier ones; the batch must be performed exactly when all are valid, and otherwise owners and log are unchanged.",
"C32": "The reply is decoded and searched for the required words; spenders are concrete there, because the executor replaces text formatted from symbolic bytes by an empty string.",
"C33": "The types in the log after each kind of operation must be in the announced list.",
"C34": "A request with a symbolic recipient and memo, a reversal of its effect by other requests, then the repetition at a symbolic time; SHA-256 compression is an injective function of the symbolic input, so equal and unequal transaction hashes are both decided by the solver.",
"C35": "The tool's own modules are compiled to WebAssembly with stand-ins for the terminal, the files, clap and the agent; the harness plays the collection, compares each message with the file's symbolic bytes, and fails any one step in three ways. The system's short reads are solver-decided choices.",
"C36": "Symbolic characters in the typed words; the one outgoing call is decoded and compared with a direct reading of the words.",
"C37": "A symbolic character at four positions of each spelling; the outgoing call and the printed answer are compared.",
"C39": "Uploads are begun, filled, finished and cancelled through the canister; the listing is asked for with solver-chosen page borders and each entry is struck off the list of those expected.",
"C38": "The written file is parsed and compared; for validation the kinds of the fields are solver-decided choices and the verdict is compared with the rule.",
}
