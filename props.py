"""Which harnesses decide which property, with the bounds each stands for."""
from collections import namedtuple
_R = namedtuple("R", "name bound params covers tier mods exact_crc cost replaces wide")
def R(name, bound="", params=(), covers=(), tier="quick", mods="core", exact_crc=False, cost=1, replaces=None, wide=0):
    return _R(name, bound, list(params), list(covers), tier, mods, exact_crc, cost, replaces, wide)

# accounts of other shapes than one-byte principals with a subaccount told apart by its last byte (the default one is then left out)
WIDE = {1: "principals of 29 bytes differing in the last byte, subaccounts in the first", 2: "principals of 29 bytes differing in the first byte, subaccounts in the middle one", 3: "principals of 10 bytes differing in the middle, subaccounts in the last byte but one"}
def long(r, w, cost=None):
    b = r.bound
    for x in ("any 1-byte principal with any of 256 subaccounts", "any 1-byte principal, default subaccount"): b = b.replace(x, WIDE[w])
    if b == r.bound: b += "; " + WIDE[w]
    return r._replace(wide=w, bound=b, covers=[c for c in r.covers if c != "anonymous"], cost=cost or r.cost * 1.5)

ACC = "accounts: any 1-byte principal with any of 256 subaccounts"
PROPS = {}
PROPS["C01"] = [
    R("h_c01_one", "2 tokens, 1 call with 1 request; " + ACC, covers=["anonymous", "moved", "refused"]),
    R("h_c01_batch", "2 tokens, 1 call with 2 requests; " + ACC, covers=["anonymous", "moved", "refused"], cost=12),
    R("h_c01_two", "2 tokens, 2 calls with 1 request each; " + ACC, covers=["anonymous", "moved", "refused"], cost=22),
    R("h_c01_deep", "2 tokens, a call with 1 request, then a call with 2; " + ACC, covers=["moved", "refused"], tier="thorough", cost=300),
]
PR = "accounts: any 1-byte principal, default subaccount"
EXP = "expiry: none, any of 256 ns around the time of use, 0, 1 s before/after, or 2^64-1"
PROPS["C02"] = [
    R("h_c02_one", "2 tokens; %s given by the owner; then one arbitrary transfer_from; %s; %s" % (["no approval", "a token approval", "a collection approval"][k], ACC, EXP), params=[k], covers=["moved", "refused"], cost=20)
    for k in (0, 1, 2)] + [
    R("h_c02_batch", "1 token, one approval, a call with 2 transfers; " + PR, covers=["first", "second"])] + [
    R("h_c02_two", "2 tokens, 2 approvals (kinds and owners: case %d of 8), then one arbitrary transfer_from; %s; %s" % (k, PR, EXP), params=[k], covers=["moved", "refused"], cost=60)
    for k in range(8)]
PROPS["C03"] = [
    R("h_c03_ends", "1 token, one approval, moved by route %d of 3%s, then one arbitrary transfer_from; owner any account, others %s" % (k, " and back" if b else "", PR), params=[k, b], covers=["changed"] + (["came-back"] if b else []))
    for k in range(3) for b in range(2)] + [
    R("h_c03_burn", "1 token, one approval, burnt, then a transfer_from by the spender; " + PR, covers=["burnt"])]
PROPS["C04"] = [
    R("h_c04_approve", "2 tokens, one arbitrary approve call; " + ACC, covers=["granted", "refused"])] + [
    R("h_c04_revoke", "2 tokens, 2 approvals (%s), one arbitrary revoke, then an arbitrary spender; %s" % (["both on one token", "one on each"][k], PR), params=[k], covers=["revoked", "refused"], cost=30)
    for k in (0, 1)]
PROPS["C05"] = [
    R("h_c05_scope", "2 tokens, one arbitrary collection approval, one arbitrary transfer_from; " + ACC, covers=["granted", "moved", "refused"], cost=10)] + [
    R("h_c05_later", "2 tokens, a collection approval, then a token %s by the granter; %s" % (["acquired", "sold"][k], PR), params=[k], covers=["moved", "refused"], cost=10) for k in (0, 1)] + [
    R("h_c05_reuse", "2 tokens, a collection approval, one token moved by the %s, then one arbitrary transfer_from; %s" % (["spender", "owner"][k], PR), params=[k], covers=["first", "moved", "refused"], cost=4) for k in (0, 1)] + [
    R("h_c05_revoke", "2 tokens, two collection approvals by %s, one arbitrary revoke; %s" % (["one owner", "two owners"][k], ACC), params=[k], covers=["revoked", "refused"], cost=60 * k + 2) for k in (0, 1)]
PROPS["C06"] = [
    R("h_c06_agree", "2 tokens; %s; one is_approved query and the same spender's transfer_from; %s; %s" % (["no approval", "a token approval", "a collection approval"][k], ACC, EXP), params=[k], covers=["served", "refused"], cost=12)
    for k in (0, 1, 2)]
OPS = ["a mint", "a transfer", "a transfer_from", "a burn", "nothing"]
CV = ["minted", "transferred", "transferred-from", "burnt"]
PROPS["C07"] = [
    R("h_c07_ops", "2 tokens of any accounts, then %s and %s by anyone for any default-subaccount account, then every ownership query for any account" % (OPS[a], OPS[b]), params=[a, b], covers=sorted({CV[a], CV[b]}), cost=20)
    for a in range(4) for b in range(4)] + [
    R("h_c07_long", "2 tokens, then %s, %s and %s; %s" % (OPS[a], OPS[b], OPS[c], PR), params=[a, b, c], covers=sorted({CV[a], CV[b], CV[c]}), tier="thorough", cost=200)
    for a in range(4) for b in range(4) for c in range(4)]
PROPS["C08"] = [
    R("h_c08_ids", "a batch of %d and a batch of %d for any accounts%s" % (a, b, ", token %d burnt in between" % d if d else ""), params=[a, b, d], covers=["minted"] + (["burnt"] if d else []), cost=10)
    for a, b, d in ((0, 1, 0), (2, 2, 0), (2, 1, 1), (2, 1, 2))] + [
    R("h_c08_cap", "any cap and batch limit below 256, two batches of 0 to 3, burns in between", covers=["minted", "refused", "burnt"], cost=40),
    R("h_c08_ids", "a batch of 3 and a batch of 1 for any accounts, token 2 burnt in between", params=[3, 1, 2], covers=["minted", "burnt"], tier="thorough", cost=100)]
PROPS["C09"] = [R("h_c09_burn", "2 tokens, one arbitrary burn, then every ownership query for any account and the other calls on the burnt token; " + ACC, covers=["burnt", "refused"])]
M10 = ["icrc7_transfer", "icrc37_transfer_from", "icrc37_approve_tokens", "icrc37_approve_collection", "icrc37_revoke_token_approvals", "icrc37_revoke_collection_approvals"]
W10 = ["default window and drift", "window 5 s, drift 1 s", "window 1 us, drift 2 s", "window 0, drift 0", "window 2^64-1, default drift", "default window, drift 2^64-1", "window 2^64-4, drift 7 ns", "window and drift 2^64-1"]
PROPS["C10"] = [
    R("h_c10_window", "%s; %s; creation time: %s" % (M10[m], W10[w], ["any 64-bit value outside the window", "any of 128 ns at either border, at the time of the call, and at the end of the window proper"][k]), params=[m, w, k], covers=(["future"] if w not in (5, 7) else []) + (["too-old"] if w < 4 else []) + (["served"] if k else []))
    for m in range(6) for w in range(8) for k in range(2) if k or w not in (5, 7)]
PROPS["C11"] = [
    R("h_c11_memo", "%s with two requests, each without a memo or with 0 to 4 bytes of any content, under any limit below 256" % m, params=[k], covers=["served", "refused"]) for k, m in enumerate(["mint", "icrc7_transfer"])] + [
    R("h_c11_batch", "icrc7_transfer with 0 to 3 requests under any limit from 1 to 255, atomic or not", covers=["all", "some", "none"])] + [
    R("h_c11_query", "%s with 0 to 3 questions under any limit below 256" % m, params=[k], covers=["answered", "refused"]) for k, m in enumerate(["icrc7_owner_of", "icrc7_balance_of", "icrc7_token_metadata"])]
PROPS["C12"] = [
    R("h_c12_rate", "%d calls on one token at any times within 134 ms, %s" % (6 + (k == 0), w), params=[k], covers=["limited", "let-through"], cost=100)
    for k, w in enumerate(["all icrc7_transfer", "icrc7_transfer, icrc37_transfer_from and icrc37_approve_tokens in turn", "the same in reverse"])]
B13 = ["icrc7_transfer", "icrc37_transfer_from", "icrc37_approve_tokens", "icrc37_approve_collection", "icrc37_revoke_token_approvals", "icrc37_transfer_from by a token approval", "icrc37_revoke_collection_approvals", "burn_nft", "mint", "update_nft_metadata"]
PROPS["C13"] = [R("h_c13_block", "2 tokens, one arbitrary %s; %s" % (m, PR), params=[k], covers=["done", "refused"], cost=4) for k, m in enumerate(B13)] + [
    R("h_c13_batch", "2 tokens, one arbitrary %s with two requests, the first with any one-byte memo and a creation time up to 255 ns old or none; %s" % (m, PR), params=[k], covers=["first", "second", "none"], cost=10)
    for k, m in enumerate(["mint", "icrc7_transfer", "icrc37_transfer_from", "icrc37_approve_tokens", "icrc37_revoke_token_approvals"])]
PROPS["C14"] = [
    R("h_c14_ranges", "4 blocks, a request for one range with start and length below 7", params=[0], covers=["some-blocks"], cost=5),
    R("h_c14_ranges", "4 blocks, a request for two ranges with starts and lengths below 7", params=[1], covers=["some-blocks"], cost=110)]

G15 = ["mint", "update_nft_metadata", "update_collection_metadata", "grant_permission", "revoke_permission", "get_user_permissions", "has_permission", "init_upload", "store_chunk", "finalize_upload", "cancel_upload", "get_upload_status", "get_all_uploads"]
PROPS["C15"] = [R("h_c15_guard", "%s by any caller; one principal holds exactly the permission needed, another all the others" % m, params=[k], covers=["served", "refused"]) for k, m in enumerate(G15)] + [
    R("h_c15_grants", "a %s and a %s by and for any principal, of three of the permissions, then queries about any principal" % (["revoke", "grant"][a], ["revoke", "grant"][b]), params=[a, b], covers=["asked", "refused"], cost=3)
    for a in (0, 1) for b in (0, 1)]
V20 = ["Nat below 256", "Int from -128 to 127", "Text of two ASCII characters", "Blob of three bytes", "Array with nested values", "Map with nested values", "Nat at borders up to 2^64-1", "Int at borders from -2^63 to 2^63-1"]
PROPS["C20"] = [R("h_c20_value", "metadata with a %s, minted and updated" % v, params=[k], covers=["minted"], cost=4) for k, v in enumerate(V20)] + [
    R("h_c20_update", "2 tokens, two updates of any token with one of three shapes of metadata, then a transfer", covers=["updated", "refused"], cost=40)]
PROPS["C21"] = [R("h_c21_update", "one update of %s; initial configuration %d" % (["any field", "any two fields"][a], b), params=[a, b], covers=["updated"], cost=4) for a in (0, 1) for b in (0, 1)]
def H22(k): return ", ".join(["two mints"] + [t for b, t in ((1, "a token and a collection approval"), (2, "a metadata update with values of all kinds and a granted permission"), (4, "a burn")) if k & b])
PROPS["C22"] = [R("h_c22_upgrade", "%s; owner and spender any principal from 128 to 255; one upgrade" % H22(k), params=[k, 1], covers=["upgraded"] + (["spender"] if k & 1 else []), cost=40) for k in range(8)] + [
    R("h_c22_upgrade", "%s; owner and spender any principal from 128 to 255; two upgrades" % H22(k), params=[k, 2], covers=["upgraded"], tier="thorough", cost=80) for k in range(8)]
TO = ["icrc7_tokens", "icrc7_tokens_of"]
PROPS["C23"] = [
    R("h_c23_page", "%s over 4 tokens of any owners%s, %s; prev and take none, below 128, at 100 or 2^32, or 2^64-1" % (TO[a], ", token %d burnt" % b if b else "", "any configured default and maximum below 128" if c else "default limits"), params=[a, b, c], covers=["served", "refused", "two"], cost=4)
    for a in (0, 1) for b in (0, 2, 4) for c in (0, 1)] + [
    R("h_c23_walk", "walking %s over 5 tokens of any owners in pages of 1 to 3" % TO[a], params=[a], covers=["walked"], cost=10) for a in (0, 1)]
KD = ["token", "collection"]
PROPS["C24"] = [
    R("h_c24_list", "three %s approvals for any spenders from 128 up, given %s; any prev and take below 6" % (KD[a], ["at one moment", "one after the other"][b]), params=[a, b], covers=["none", "one", "two", "three"], cost=6)
    for a in (0, 1) for b in (0, 1)] + [
    R("h_c24_after", "two %s approvals for any spenders from 128 up, one arbitrary or a complete revocation" % KD[a], params=[a], covers=["revoked", "refused"], cost=3) for a in (0, 1)]
PROPS["C25"] = [
    R("h_c25_cap", "any cap from 1 to 3, four %s approvals for any spenders from 128 up" % KD[a], params=[a], covers=["accepted", "refused"], cost=6) for a in (0, 1)] + [
    R("h_c25_revoke", "three %s approvals, a batch of 0 to 3 revocations, any limit from 1 to 255" % KD[a], params=[a], covers=["cut", "whole"], cost=3) for a in (0, 1)] + [
    R("h_c25_default", "the default cap: ten %s approvals and any eleventh" % KD[a], params=[a], covers=["refused"], cost=3) for a in (0, 1)] + [
    R("h_c25_zero", "any limits below 256 or none at installation", covers=["installed", "refused"])]
OU = ["init_upload", "store_chunk", "finalize_upload", "cancel_upload"]
EN = ["the storage canister accepts", "the storage canister refuses", "no canister can be reached", "an upgrade cuts it off"]
PROPS["C17"] = [
    R("h_c17_busy", "%s in progress at any of its outgoing calls, any of ten management calls by another or the same permitted principal (from 128 up) on either file, then %s" % (OU[a], EN[b]), params=[a, b], covers=["mint", "burn_nft", "init_upload", "grant_permission"], cost=[15, 8, 15, 100][b] * (3 if a == 0 else 1))
    for a in range(4) for b in range(4)]
GOT = ["not begun", "begun", "in progress", "finalized", "cancelled"]
PROPS["C18"] = [
    R("h_c18_life", "one file %s, then %s and any other upload call on either of two files, with any file size up to 2 GiB, chunk id below 128 and contents; the storage canister accepts, refuses, is unreachable, or is unreachable once" % (GOT[a], OU[b]), params=[a, b, 0], covers=["refused"], cost=50)
    for a in range(4) for b in range(4)] + [
    R("h_c18_life", "one file %s, then %s, an upgrade, and any other upload call on either of two files" % (GOT[a], OU[b]), params=[a, b, 1], covers=["refused"], cost=60, tier="quick" if a == b else "thorough")
    for a in range(4) for b in range(4)] + [
    R("h_c18_room", "any file size, one storage canister at any of four fillings around its capacity, any outcome of creating and filling another, then a second attempt", covers=["room", "no-room", "too-big", "again"], cost=30)]
PROPS["C19"] = [
    R("h_c19_http", "one file %s, the other in any state, one arbitrary further upload call, then every page" % GOT[a], params=[a], covers=["redirected", "not-redirected"], cost=8) for a in range(4)] + [
    R("h_c19_upgrade", "one file %s, the other in any state, an upgrade, then every page" % GOT[a], params=[a], covers=["redirected", "not-redirected", "upgraded"], cost=20) for a in range(5)]
PROPS["C26"] = [
    R("h_c26_gc", "one file %s, the other %s, begun any time within a day of each other to the nanosecond; two daily clean-ups, each a moment early or late; the storage canister obeys, refuses or is unreachable" % (GOT[a], GOT[b]), params=[a, b],
      covers=["kept"] + (["cancelled", "begun-again"] if a in (1, 2) or b in (1, 2) else []), cost=5) for a in range(1, 5) for b in range(4)]
BK = ["7mint", "7burn", "7xfer", "37approve", "37approve_coll", "37revoke", "37revoke_coll", "37xfer", "7update_token"]
FL = ["any principal", "any token", "each type", "any principal and a token", "a type and any principal"]
PROPS["C27"] = [
    R("h_c27_filters", "a %s block with any principals%s and one of three other blocks; filtered by %s" % (BK[k], "", FL[f]), params=[k, f], covers=[["account"], ["token"], ["type"], ["both"], ["both"]][f], mods="index",
      cost=[44, 2, 1, 90, 66][f] / ([1, 20, 20, 1, 1][f] if k == 7 else 12)) for k in range(9) for f in range(5)] + [
    R("h_c27_real", "the real ledger after a %s by, for or with any principals, read by the real index; filtered by each type, each token, any principal" % BK[k], params=[k], covers=["done"], mods="core+index", cost=50 if k == 7 else 9) for k in range(9)]
IS = ["the ledger grows", "a job starts", "the oldest request is answered", "the newest request is answered", "someone reads a block", "an upgrade"]
PROPS["C28"] = [
    R("h_c28_progress", "1 or 2 blocks; %s, then %s, then any two steps (the ledger grows, a job starts, the oldest or newest request is answered fully, partly, by an archive or not at all, someone reads a block, an upgrade)" % (IS[a], IS[b]),
      params=[a, b, 2], mods="index", cost=12) for a in (0, 1, 4, 5) for b in range(6) if not (b in (2, 3) and a != 1) and not (a == 1 and b == 5)] + [
    R("h_c28_progress", "1 or 2 blocks; %s, then %s, then any three steps" % (IS[a], IS[b]), params=[a, b, 3], mods="index", cost=150, tier="thorough") for a in (0, 1, 4, 5) for b in range(6) if not (b in (2, 3) and a != 1) and not (a == 1 and b == 5)]
VK = ["any natural below 256", "any integer of one byte", "any text of two characters", "any blob of three bytes", "an array with any byte", "a map with any byte", "naturals at the size borders up to 64 bits", "integers at the size borders up to 64 bits"]
PROPS["C29"] = [
    R("h_c29_same", "a block with %s and any hash byte, and a second one; fetched directly or through an archive; read fresh, cached, filtered, after an upgrade and after the daily clean-up" % VK[k], params=[k], covers=["from-cache", "from-ledger", "cleared", "upgraded"], mods="index", cost=17 if k in (0, 1) else 9) for k in range(8)]
PROPS["C30"] = [
    R("h_c30_pages", "%d of 5 blocks indexed, some cached or none; %s pages with any start and length below 7, or large ones; any order; the ledger answers directly, through an archive, or not" % (m, ["unfiltered", "filtered"][f]), params=[m, f], covers=["page", "large"], mods="index", cost=14)
    for m in (0, 1, 3, 5) for f in (0, 1)]
OPS = ["mint", "burn_nft", "icrc7_transfer", "icrc37_approve_tokens", "icrc37_approve_collection", "icrc37_revoke_token_approvals", "icrc37_revoke_collection_approvals", "icrc37_transfer_from", "update_nft_metadata"]
PROPS["C31"] = [
    R("h_c31_transfer", "atomic collection, 3 tokens of two accounts, a call of %d requests %s; %s" % (n, ["", "for any tokens", "for any tokens", "for the three tokens"][n], ACC), params=[n], covers=["performed", "answered-refused"] + (["call-failed"] if n > 1 else []), cost=[0, 2, 40, 10][n]) for n in (1, 2, 3)] + [
    R("h_c31_from", "atomic collection, 3 tokens, %s, a call of 2 requests for any two tokens by any principal to any principals, the %s naming any account as the owner" % (["a spender approved for the account of two", "a spender approved for one token"][a], ["first", "second"][b]), params=[a, b], covers=["performed", "answered-refused", "call-failed"], cost=25) for a in (0, 1) for b in (0, 1)]
CM = [OPS[k] for k in (2, 3, 4, 5, 6, 7)]
PROPS["C32"] = [
    R("h_c32_message", "%s with %d requests, any tokens below 100, parties and memo; three kinds of preferences; %s" % (CM[m], n, "spenders from three concrete principals" if m == 2 else PR), params=[m, n], covers=["message"], cost=[1, 8, 30][n] if m == 2 else 1) for m in range(6) for n in (0, 1, 2)] + [
    R("h_c32_refuse", "five methods it does not know, five wrong arguments, any argument of up to 3 bytes or of 2 after the magic", covers=["refused"], cost=2)]
PROPS["C33"] = [
    R("h_c33_types", "one token, one %s by, for or with any principals%s" % (OPS[k], [", before", ", after an upgrade"][a]), params=[k, a], covers=["done"], cost=10 if a else 1) for k in range(9) for a in (0, 1)]
RQ = [OPS[k] for k in (2, 7, 3, 4, 5, 6)]
CF = ["default window", "a one-second window with three seconds of drift", "a 40-second window set by an update", "default window, an upgrade in between"]
SH = ["the same request again at any time up to 0.27 s around the end of the window and 0.27 s after the first", "the same but for the creation time or the memo (any byte)", "twice without a creation time"]
PROPS["C34"] = [
    R("h_c34_repeat", "%s, %s; %s" % (RQ[m], SH[h], CF[c]), params=[m, c, h], covers=["refused-repeat", "refused-old"] if h == 0 else ["served"], cost=(30 if c == 3 else 6), tier="quick" if c != 3 or h == 0 or m < 2 else "thorough") for m in range(6) for c in range(4) for h in range(3)] + [
    R("h_c34_many", "twelve %s at one instant, in one call or twelve, %s" % (["mint", "transfer", "approve", "transfer_from"][m], "default window" if w == 0 else "10 s window"), params=[m, w], covers=["done"]) for m in range(4) for w in (0, 10_000_000_000)]
PROPS["C35"] = [
    R("h_c35_upload", "a file of up to six bytes, %s; chunk sizes 0 to 3 and larger than the file; %s" % (["the same text", "any content"][a], ["whole reads; any one step refused, rejected or answered with nonsense", "each of the first three reads returning one to three bytes at most"][b]), params=[a, b], covers=["done", "refused"] + (["failed"] if b == 0 else []), mods="cli", cost=5) for a in (0, 1) for b in (0, 1)] + [
    R("h_c35_long", "a file of 255 to 300 chunks", covers=["done"], mods="cli", cost=9),
    R("h_c35_metadata", "six documents, valid or not, or none; two chunk sizes; any one step failing in three ways", covers=["done", "failed", "refused"], mods="cli", cost=2)]
PROPS["C36"] = [
    R("h_c36_mint", b, params=[k], covers=["done", "failed"] + (["refused"] if k != 2 else []), mods="cli", cost=[3, 15, 1, 5][k]) for k, b in enumerate([
        "three owners or a mistyped one; a subaccount of 31, 32 or 33 bytes with any two ASCII characters at either of two places, or none", "a memo of up to three ASCII characters or none, up to two entries, the first of up to four ASCII characters, the second with a number of 64 bits or several colons", "an ICRC-97 address with two ASCII characters, with and without other metadata", "one typed entry of each kind, of up to two printable characters"])]
PROPS["C37"] = [
    R("h_c37_named", "permissions %s; 16 spellings, any ASCII character at one of four positions" % c, params=[k], covers=["done", "failed", "refused"], mods="cli", cost=2) for k, c in enumerate(["grant", "revoke", "has"])] + [
    R("h_c37_list", "any of the 64 sets of permissions", covers=["done", "failed"], mods="cli")]
PROPS["C38"] = [
    R("h_c38_create", "a name of one or two ASCII characters, two attributes of nine forms", covers=["created", "refused"], mods="cli", cost=60),
    R("h_c38_interactive", "a name of one printable character, two attributes of four values, all display types", covers=["created"], mods="cli", cost=30)] + [
    R("h_c38_validate", "field %d of any of seven kinds, any other field of any kind" % k, params=[k], covers=["valid", "invalid"], mods="cli") for k in range(9)]

def also(pid, name, w, *params):
    for r in [r for r in PROPS[pid] if r.name == name and r.params == list(params) and not r.wide][:1]: PROPS[pid].append(long(r, w)); return
    raise KeyError((pid, name, params))
for w in (1, 2, 3): also("C01", "h_c01_one", w)
also("C01", "h_c01_batch", 1)
also("C02", "h_c02_one", 1, 1); also("C02", "h_c02_batch", 2); also("C02", "h_c02_batch", 3)
for k in range(3): also("C03", "h_c03_ends", k + 1, k, 0); also("C03", "h_c03_ends", 3 - k, k, 1)
also("C03", "h_c03_burn", 3)
also("C04", "h_c04_approve", 1); also("C04", "h_c04_approve", 3); also("C04", "h_c04_revoke", 2, 0)
also("C05", "h_c05_scope", 1); also("C05", "h_c05_revoke", 2, 0)
for k in (0, 1): also("C05", "h_c05_later", 2 + k, k); also("C05", "h_c05_reuse", 3 - k, k)
for k in (0, 1, 2): also("C06", "h_c06_agree", k + 1, k)
also("C07", "h_c07_ops", 2, 1, 0); also("C07", "h_c07_ops", 1, 1, 1); also("C07", "h_c07_ops", 3, 3, 2)
also("C08", "h_c08_ids", 1, 2, 1, 1)
for w in (1, 2, 3): also("C09", "h_c09_burn", w)
also("C12", "h_c12_rate", 2, 0)
for k in range(10): also("C13", "h_c13_block", k % 3 + 1, k)
for k in range(13): also("C15", "h_c15_guard", k % 3 + 1, k)
for k in range(4): also("C15", "h_c15_grants", k % 3 + 1, k // 2, k % 2)
also("C17", "h_c17_busy", 1, 2, 1)
also("C22", "h_c22_upgrade", 2, 3, 1)
also("C23", "h_c23_page", 1, 1, 2, 0); also("C23", "h_c23_page", 2, 1, 0, 0); also("C23", "h_c23_page", 3, 1, 4, 0); also("C23", "h_c23_walk", 2, 1)
for k in range(4): also("C24", "h_c24_list", k % 3 + 1, k // 2, k % 2)
for k in range(2): also("C24", "h_c24_after", k + 1, k); also("C25", "h_c25_cap", 2 - k, k)
also("C31", "h_c31_transfer", 2, 1); also("C31", "h_c31_transfer", 1, 3); also("C31", "h_c31_from", 2, 0, 0)
for k in range(9): also("C33", "h_c33_types", k % 3 + 1, k, 0)
for k in range(6): also("C34", "h_c34_repeat", k % 3 + 1, k, 0, 0)
for k in (0, 3): also("C27", "h_c27_filters", 2 - k // 3, k, 0)
also("C27", "h_c27_real", 1, 2); also("C27", "h_c27_real", 2, 7)

# large collections, long logs, default and very large limits
BIG = "a limit of 2^31, 2^32-1, 2^32, 2^32+1, 2^63, 2^64-2 or 2^64-1, %s; batches of 101"
CM = ["a transfer", "a transfer_from", "a burn"]
PROPS["C07"] += [R("h_c07_many", "260 tokens of three accounts, then %s of any one at the borders of 100, 128 and 256, then every ownership query" % CM[k], params=[k], covers=["changed"], cost=7) for k in range(3)]
PROPS["C11"] += [R("h_c11_default", "default limits: %s" % m, params=[k], covers=["done"] + (["memo"] if k == 3 else []), cost=8) for k, m in enumerate(["mints of 99 to 102 tokens", "transfers of 99 to 102 tokens", "99 to 102 questions", "memos of 33, 256, 1,000,000 and 1,000,001 bytes"])]
PROPS["C11"] += [R("h_big", BIG % c, params=[0, k], covers=["large"], cost=8) for k, c in enumerate(["configured at installation", "set by update_collection_metadata"])]
PROPS["C14"] += [R("h_c14_many", "260 blocks, one range with start and length at the borders of 100, 128 and 256%s" % t, params=[k], covers=["asked"], cost=60, tier="thorough" if k in (1, 2) else "quick") for k, t in enumerate(["", ", after the range 0 to 259", ", after the range 255 to 256", ", after block 100"])]
PROPS["C23"] += [R("h_c23_many", "230 tokens, 207 of one account, default limits; %s" % t, params=[a, k], covers=["served", "refused", "full"], cost=15) for a in (0, 1) for k, t in enumerate(["prev and take at borders", "any take below 300, prev at borders"])]
PROPS["C23"] += [R("h_big", "104 tokens, a maximal page of 2^31, 2^32-1, 2^32, 2^32+1, 2^63, 2^64-2 or 2^64-1, %s, as the default as well or not; take none, 101, the limit or one less" % c, params=[1, k], covers=["large"], cost=8) for k, c in enumerate(["configured at installation", "set by update_collection_metadata"])]
PROPS["C24"] += [R("h_big", "12 approvals of a token or account, take of 11, 12, 2^32, 2^32+1 or 2^64-1", params=[2, 0], covers=["large"], cost=8)]
PROPS["C25"] += [R("h_big", "caps and revocation limits of 2^31, 2^32-1, 2^32, 2^32+1, 2^63, 2^64-2 and 2^64-1: %s" % t, params=[k, 0], covers=["large"], cost=8) for k, t in ((2, "12 approvals of a token or account"), (3, "11 revocations in a call"))]
PROPS["C28"] += [R("h_c28_many", "a ledger of 99 to 230 blocks, four jobs, one of them %s, an upgrade or none" % t, params=[k], covers=["caught-up"], mods="index", cost=40) for k, t in enumerate(["answered in full", "answered with the first 1, 50 or 99 blocks only", "answered by an archive for the first 1, 100, 150 or 200 blocks", "not answered"])]
PROPS["C30"] += [R("h_c30_many", "230 indexed blocks, %s, starts and lengths at the borders of 100, 128 and 230" % t, params=[k], covers=["page"], mods="index", cost=40) for k, t in enumerate(["no filter", "a type filter", "an account and a type filter"])]
PROPS["C39"] = [
    R("h_c39_uploads", "%d uploads begun, in any states, one cancelled%s; %s" % (n, ", an upgrade" if k == 2 else "", ["walked in pages of any one size from 1 to 7" if n < 10 else "walked in pages of 60, 100, 101, 1000 or the default", "prev and take any number below 256 or none, the number of uploads, 2^32 to 2^32+7, 2^64-1", "walked in pages of any one size from 1 to 7"][k]), params=[n, k], covers=["walked"] if k != 1 else ["empty"] + (["page"] if n else []), cost=3)
    for n, k in ((0, 0), (0, 1), (1, 0), (1, 1), (6, 0), (6, 1), (6, 2), (104, 0))]
