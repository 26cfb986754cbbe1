#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
T = "contracts/src/"
C = "lib/crypto/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

# ---------------- ERC-20 ----------------
p("C01", "ERC-20: balances always sum to the supply and move exactly",
  "After any history of mints, burns, transfers and allowance-based transfers, the sum of all balances equals the total supply, and each successful operation changes exactly the named balances by exactly the named amount. An operation on the zero address, beyond the available balance, or overflowing the supply fails with the documented error and leaves every balance, allowance and the supply as they were. Every successful operation emits exactly the transfer event that describes it, so replaying the event log reproduces all balances.",
  ["histories", "inputs"], "all operation sequences over holders (including the zero address, the contract itself and self-transfers) and amounts including 0, 1, 2, around 2^64, 2^128 and the maximum",
  "Unit tests sample a few single operations from a fresh state; conservation and exactness are claims over every history and over boundary amounts.",
  [T+"token/erc20/mod.rs", T+"token/erc20/extensions/burnable.rs", T+"utils/math/storage/checked.rs", T+"utils/math/storage/unchecked.rs"],
  [("single balance/supply update routine", T+"token/erc20/mod.rs (_update)"), ("mint/burn/transfer wrappers with zero-address checks", T+"token/erc20/mod.rs")],
  ["totalSupply()", "balanceOf()", "Transfer events", "revert data"])
p("C02", "ERC-20: tokens leave an account only by its owner's authority",
  "An account's balance decreases only in a call made by the account itself or by a spender whose allowance covers the amount, and the spender's allowance then decreases by exactly that amount unless it is the maximum value, which never decreases. Allowances change only through the owner's own approval, a valid signed permit, or spending, and approving sets exactly the given value with its event. Spending or burning beyond the allowance fails with the documented error and changes nothing.",
  ["histories", "inputs"], "all interleavings of approve, transfer, transferFrom, burn and burnFrom by every pair of accounts, with finite and infinite allowances",
  "Tests check individual approve/transferFrom pairs; authority has to hold after every history and for every caller.",
  [T+"token/erc20/mod.rs", T+"token/erc20/extensions/burnable.rs"],
  [("allowance spending with infinite sentinel", T+"token/erc20/mod.rs (_spend_allowance)"), ("burn_from", T+"token/erc20/extensions/burnable.rs")],
  ["allowance()", "balanceOf()", "Approval events", "revert data"])
p("C03", "ERC-20 flash loans: every loan is repaid with fee or nothing changes",
  "A flash loan succeeds only if the borrower's callback returned the standard success value and the borrower approved and could pay the loan plus the fee; afterwards the lent amount is burned again, so the supply differs only by the burned fee (no fee receiver) or not at all (fee moved to the receiver). Otherwise the call fails with the documented error and no balance, allowance or supply changes. The quoted fee and maximum loan are what is really charged and accepted, loans of other tokens are refused, and the maximum loan is the remaining supply headroom.",
  ["inputs", "configurations", "fault_sequences"], "all borrower behaviours (return values, missing/partial/infinite approval, spending the loan, reverting, re-entering the token), fees, fee receivers, amounts and pre-existing balances",
  "Tests use a single well-behaved borrower mock and a couple of amounts.",
  [T+"token/erc20/extensions/flash_mint.rs"],
  [("flash_loan: mint, callback, spend allowance, burn or fee transfer", T+"token/erc20/extensions/flash_mint.rs")],
  ["flashLoan()", "maxFlashLoan()", "flashFee()", "ERC-20 views"])
p("C04", "Permit: an allowance is set by signature only as the owner signed it",
  "A permit succeeds exactly when the deadline has not passed and the signature was made by the stated owner over this token's domain, the stated owner, spender, value and deadline and the owner's current nonce. Success sets exactly that allowance, emits the approval event and consumes exactly that one nonce, so a permit can never be replayed; any other call fails with the documented error and changes neither nonce nor allowance.",
  ["inputs", "histories"], "all combinations of signer, owner, spender, value, deadline around the current time, nonce, chain and contract domain, signature components, and all sequences of permits",
  "Unit tests do not cover permit at all (only end-to-end tests on a node do, which do not run here).",
  [T+"token/erc20/extensions/permit.rs", T+"utils/cryptography/eip712.rs", T+"utils/cryptography/ecdsa.rs", T+"utils/nonces.rs"],
  [("permit", T+"token/erc20/extensions/permit.rs"), ("typed-data digest", T+"utils/cryptography/eip712.rs"), ("recover", T+"utils/cryptography/ecdsa.rs")],
  ["permit()", "nonces()", "allowance()", "DOMAIN_SEPARATOR()"])
p("C05", "ERC-20 wrapper: every wrapped token is backed one-to-one",
  "Over any history of deposits, withdrawals, surplus recoveries and direct transfers to the wrapper, the wrapped supply never exceeds the underlying tokens held by the wrapper, deposits mint exactly what was taken from the caller and withdrawals return exactly what was burned from the caller. When the underlying token misbehaves (returns false, reverts, returns nothing or garbage) the operation either fails without any change or is exactly accounted. Zero or self addresses for sender or receiver are refused with the documented errors.",
  ["histories", "fault_sequences", "inputs"], "all sequences of deposit/withdraw/recover/transfer by several accounts, with every modelled underlying-token behaviour",
  "Tests check single deposits and withdrawals with one honest mock token.",
  [T+"token/erc20/extensions/wrapper.rs", T+"token/erc20/utils/safe_erc20.rs"],
  [("deposit_for / withdraw_to / _recover", T+"token/erc20/extensions/wrapper.rs")],
  ["depositFor()", "withdrawTo()", "ERC-20 views of both tokens"])
p("C06", "ERC-4626 vault: rounding and limits always favour the vault",
  "For every vault state, previews, conversions and maxima equal the documented formulas, each operation moves exactly the previewed assets and shares, rounding never favours the caller, and no sequence of deposits, mints, withdrawals and redemptions (including donations) lets one account take out more assets than it put in plus its share of donations. Operations beyond the stated maxima fail with the documented error and change nothing. Withdrawing or redeeming for another owner spends that owner's share allowance exactly.",
  ["histories", "inputs", "configurations"], "all operation sequences by two depositors plus donations, decimals offsets 0 and above, amounts including 0 and extreme values",
  "Tests check single operations in a handful of ratios; rounding and solvency are claims over all reachable ratios and histories.",
  [T+"token/erc20/extensions/erc4626.rs", T+"utils/math/alloy.rs"],
  [("_convert_to_shares/_convert_to_assets with virtual shares", T+"token/erc20/extensions/erc4626.rs"), ("_deposit/_withdraw", T+"token/erc20/extensions/erc4626.rs")],
  ["preview*/convert*/max*", "deposit/mint/withdraw/redeem", "Deposit/Withdraw events"])
p("C07", "Safe token calls: a reported success means the token really succeeded",
  "A safe token operation succeeds exactly when the target has code, the call did not revert, and it returned either nothing or a true value; in every other case it fails with the documented error naming the token. Increase and decrease of an allowance result in exactly the old value plus or minus the amount or fail (on overflow or underflow) leaving the allowance unchanged, and forced approval ends with exactly the requested allowance even for tokens that require resetting to zero first. The token receives exactly the standard call for the given parties and amount.",
  ["inputs", "fault_sequences"], "all return-data shapes (empty, true, false, other words, short, long), reverts, missing code, tokens that reject non-zero to non-zero approvals, and boundary amounts",
  "There are no unit tests for it at all; end-to-end tests need a node and sample four mock tokens.",
  [T+"token/erc20/utils/safe_erc20.rs"],
  [("call_optional_return", T+"token/erc20/utils/safe_erc20.rs"), ("encodes_true", T+"token/erc20/utils/safe_erc20.rs"), ("force_approve", T+"token/erc20/utils/safe_erc20.rs")],
  ["safeTransfer*/safeIncrease*/safeDecrease*/forceApprove", "calls received by the token"])

# ---------------- ERC-721 ----------------
p("C08", "ERC-721: every token has one owner and balances count them exactly",
  "After any history of mints, burns and transfers every existing token has exactly one owner, every account's balance equals the number of tokens it owns, and a burned or never minted token has no owner and no approval. Each successful operation moves exactly the named token and emits exactly one matching transfer event; operations with the zero address, a wrong previous owner, an existing token on mint or a missing token fail with the documented error and change nothing.",
  ["histories", "inputs"], "all operation sequences over several accounts and token identifiers including 0 and the maximum",
  "Tests check single operations; consistency of owners, balances and approvals is a claim over every history, including burn and re-mint.",
  [T+"token/erc721/mod.rs", T+"token/erc721/extensions/burnable.rs"],
  [("single ownership update routine", T+"token/erc721/mod.rs (_update)")],
  ["ownerOf()", "balanceOf()", "getApproved()", "Transfer events", "revert data"])
p("C09", "ERC-721: only the owner or an approved party can move a token",
  "A token is moved or burned through the public interface only by a call from its current owner, an operator of that owner, or the single account currently approved for that token; the approval is gone after any move, even if the token later returns. Approvals are granted only by the owner or its operators, operators only by the owner itself, and each is reported by event. Every unauthorised attempt fails with the documented error and changes nothing.",
  ["histories", "inputs"], "all interleavings of approve, setApprovalForAll, transfer, safe transfer and burn by every caller",
  "Tests check one caller at a time from a fresh state; stale approvals only show in multi-step histories.",
  [T+"token/erc721/mod.rs", T+"token/erc721/extensions/burnable.rs"],
  [("_is_authorized/_check_authorized", T+"token/erc721/mod.rs"), ("approval reset in _update", T+"token/erc721/mod.rs")],
  ["transferFrom", "safeTransferFrom", "approve", "setApprovalForAll", "burn"])
p("C10", "Safe NFT and multi-token transfers require the receiver's acceptance",
  "A safe transfer or safe mint of an ERC-721 or ERC-1155 token to a contract succeeds only if that contract answered the standard receiver callback with the standard acceptance value, called exactly once with the true operator, previous owner, identifiers, amounts and data, after the balances were updated. Receivers without code accept unconditionally. If the receiver rejects, reverts, answers with anything else or lacks the callback, the whole operation fails with the documented error (propagating the receiver's own reason) and nothing changes.",
  ["inputs", "fault_sequences"], "all receiver behaviours (accept, wrong value, empty, short, revert with and without reason, panic) for every safe entry point, single and batch, with and without data",
  "Tests only reach receivers without code or one reverting mock.",
  [T+"token/erc721/mod.rs", T+"token/erc1155/mod.rs", T+"token/erc721/receiver.rs", T+"token/erc1155/receiver.rs"],
  [("_check_on_erc721_received", T+"token/erc721/mod.rs"), ("_check_on_erc1155_received", T+"token/erc1155/mod.rs")],
  ["safeTransferFrom", "safeBatchTransferFrom", "callback arguments", "revert data"])
p("C11", "ERC-721 enumeration lists exactly the existing and the owned tokens",
  "After any history of mints, burns and transfers, enumerating all tokens by index yields each existing token exactly once and nothing else, and enumerating an owner's tokens yields exactly the tokens that account owns. Indices at or beyond the count fail with the documented out-of-bounds error.",
  ["histories", "inputs"], "all sequences of mint, burn and transfer over several accounts and tokens, including token identifier zero",
  "Swap-and-pop index bookkeeping breaks only in particular multi-step removal orders; tests sample a few.",
  [T+"token/erc721/extensions/enumerable.rs"],
  [("add/remove token to/from owner and all-token enumeration", T+"token/erc721/extensions/enumerable.rs")],
  ["tokenByIndex()", "tokenOfOwnerByIndex()", "totalSupply()"])
p("C12", "ERC-721 consecutive minting gives each batch token to its recipient",
  "After any history of batch mints, single mints, transfers and burns, each token of a batch belongs to the batch recipient until it is individually moved, burned tokens stay without owner, and balances equal the numbers of tokens owned. Batches get gapless increasing identifiers from the configured first one, and one event per non-empty batch names exactly the minted range and recipient. Zero recipients, oversized batches and double mints are refused with the documented errors and change nothing.",
  ["histories", "inputs", "configurations"], "all sequences of batch mints (sizes 0 to beyond the maximum), transfers and burns of first, middle and last batch tokens and single mints, for several first identifiers",
  "Ownership is derived from sparse checkpoints plus a burn bitmap, which fails only for particular combinations of batch boundaries and histories.",
  [T+"token/erc721/extensions/consecutive.rs", T+"utils/structs/checkpoints/mod.rs", T+"utils/structs/bitmap.rs"],
  [("_owner_of via checkpoints and burn bitmap", T+"token/erc721/extensions/consecutive.rs"), ("_mint_consecutive", T+"token/erc721/extensions/consecutive.rs")],
  ["ownerOf()", "balanceOf()", "ConsecutiveTransfer events"])
p("C13", "ERC-721 wrapper: a wrapped token exists only while the original is held",
  "Over any history of deposits, withdrawals, direct safe transfers into the wrapper, recoveries and ordinary transfers, every existing wrapped token is backed by the wrapper owning the same identifier of the underlying collection, and each unwrapping burns the wrapped token and hands the original to the chosen account. Unwrapping needs authority over the wrapped token, the receiver callback accepts only the configured collection, and when the underlying collection refuses, nothing changes.",
  ["histories", "fault_sequences", "inputs"], "all sequences of wrap/unwrap/transfer/recover by several accounts and several identifiers, with refusing underlying collections and foreign callers",
  "Tests check single deposits and withdrawals on an honest underlying collection.",
  [T+"token/erc721/extensions/wrapper.rs"],
  [("deposit_for/withdraw_to/on_erc721_received/_recover", T+"token/erc721/extensions/wrapper.rs")],
  ["depositFor()", "withdrawTo()", "onERC721Received()", "ownerOf() on both"])
p("C14", "NFT and multi-token metadata: each token resolves to its documented URI",
  "For every combination of base URI and per-token URI, a token's URI is the per-token URI appended to the base when both are set, the per-token URI alone without base, and otherwise the base followed by the decimal identifier (ERC-721) or the shared URI (ERC-1155); setting one token's URI affects only that token and emits the update event with the resulting URI. Names, symbols, decimals and supply caps are returned as configured, and an ERC-721 token that does not exist has no URI and fails.",
  ["inputs", "histories", "configurations"], "all base/token URI length classes (empty, short, 31, 32, 33 and more bytes), identifiers including 0 and the maximum, and all orders of setting and overwriting",
  "Tests sample one or two strings; storage encoding changes at 32 bytes and overwrites have history.",
  [T+"token/erc721/extensions/metadata.rs", T+"token/erc721/extensions/uri_storage.rs", T+"token/erc1155/extensions/uri_storage.rs", T+"token/erc1155/extensions/metadata_uri.rs", T+"token/erc20/extensions/metadata.rs", T+"utils/metadata.rs"],
  [("token_uri / _set_token_uri", T+"token/erc721/extensions/uri_storage.rs"), ("uri / set_token_uri", T+"token/erc1155/extensions/uri_storage.rs")],
  ["tokenURI()", "uri()", "name()", "symbol()", "decimals()"])

# ---------------- ERC-1155 ----------------
p("C15", "ERC-1155: batch operations are exact, atomic and equal to single ones",
  "After any history of single and batch mints, burns and transfers, each balance equals the sum of what was received minus what was sent for that identifier; a batch has exactly the effect of its entries applied one after another, also with repeated identifiers, or no effect at all. Mismatched array lengths, zero addresses, insufficient balances and overflows fail with the documented error, and each success emits exactly the one event for its form (single for one entry, batch otherwise) with the true operator, parties, identifiers and amounts. Batch balance queries return the individual balances in order.",
  ["histories", "inputs"], "all operation sequences over several accounts, identifiers (repeats included), amounts including 0 and the maximum, and batch lengths 0 to 3",
  "Tests sample a few arrays without repeats; partial effects and repeated identifiers are combinatorial.",
  [T+"token/erc1155/mod.rs", T+"token/erc1155/extensions/burnable.rs"],
  [("_update over id/value pairs", T+"token/erc1155/mod.rs")],
  ["balanceOf()", "balanceOfBatch()", "TransferSingle/TransferBatch events", "revert data"])
p("C16", "ERC-1155: only holders and their operators can move or burn tokens",
  "Tokens leave an account through the public interface only in a call by that account or by an operator it has currently approved; approval is granted and revoked only by the account itself, affects only that pair, and is reported by event. Every other attempt fails with the documented error and changes nothing.",
  ["histories", "inputs"], "all interleavings of approvals, revocations, single and batch transfers and burns by every caller",
  "Tests check one unauthorised caller per entry point from a fresh state.",
  [T+"token/erc1155/mod.rs", T+"token/erc1155/extensions/burnable.rs"],
  [("authorize_transfer / ensure approved or owner", T+"token/erc1155/mod.rs"), ("burn/burn_batch", T+"token/erc1155/extensions/burnable.rs")],
  ["setApprovalForAll", "safeTransferFrom", "safeBatchTransferFrom", "burn", "burnBatch"])
p("C17", "ERC-1155 supply tracking equals the sum of balances",
  "After any history of mints, burns and transfers, single or batch, the tracked supply of each identifier equals the sum of all balances of it, the overall supply equals the sum over identifiers, and an identifier is reported as existing exactly when its supply is not zero. A mint that would overflow any supply fails and changes nothing.",
  ["histories", "inputs"], "all sequences of single and batch mint, burn and transfer, including repeated identifiers, zero amounts and amounts around the maximum",
  "Tests sample a few mints and burns with small values.",
  [T+"token/erc1155/extensions/supply.rs"],
  [("_update adjusting per-id and overall supply", T+"token/erc1155/extensions/supply.rs")],
  ["totalSupply(id)", "totalSupply()", "exists(id)", "balanceOf()"])
p("C18", "Royalties: the reported amount is the configured fraction, never more",
  "For every token and price the royalty receiver and amount are those configured for the token if set, otherwise the default, with the amount equal to price times fraction divided by the configured denominator (ten thousand by default), rounded down, or a failure if the product does not fit into 256 bits; resetting a token falls back to the default and deleting the default yields none. Fractions above one hundred percent and zero receivers are refused with the documented errors and change nothing.",
  ["histories", "inputs"], "all sequences of setting, resetting and deleting default and token royalties, with boundary fractions and prices",
  "Tests sample single configurations and small prices.",
  [T+"token/common/erc2981.rs"],
  [("royalty_info and setters", T+"token/common/erc2981.rs")],
  ["royaltyInfo()"])

# ---------------- access ----------------
p("C19", "Role-based access: membership changes only by the role's admin",
  "An account has a role exactly if it was granted and not since revoked or renounced; granting and revoking succeed only for callers holding the role's current admin role, renouncing only for the caller itself with matching confirmation. Changing a role's admin affects only that role from then on. Events are emitted exactly when something changes, guarded calls succeed exactly for holders, and every refused call fails with the documented error and changes nothing.",
  ["histories", "inputs"], "all sequences of grant, revoke, renounce and admin change over several accounts and roles, including cyclic and self-administered roles",
  "Tests check single steps; authority depends on the whole grant history.",
  [T+"access/control.rs"],
  [("only_role / _grant_role / _revoke_role", T+"access/control.rs")],
  ["hasRole()", "getRoleAdmin()", "grantRole/revokeRole/renounceRole", "events"])
p("C20", "Ownership moves only by the owner, and two-step only by acceptance",
  "There is at most one owner at any time; it changes only in a call by the current owner (transfer or renounce) or, with two-step transfer, when exactly the currently pending account accepts, and a pending transfer is cleared by acceptance and by renouncing and replaced by a new offer. Owner-only operations succeed exactly for the owner, each change emits its event with previous and new owner, and refused calls fail with the documented error and change nothing.",
  ["histories", "inputs"], "all sequences of transfer, accept and renounce by several callers, including the zero address",
  "Tests check single steps; stale pending owners appear only in longer histories.",
  [T+"access/ownable.rs", T+"access/ownable_two_step.rs"],
  [("only_owner/_transfer_ownership", T+"access/ownable.rs"), ("accept_ownership and pending clearing", T+"access/ownable_two_step.rs")],
  ["owner()", "pendingOwner()", "transferOwnership/acceptOwnership/renounceOwnership", "events"])
p("C21", "Pausing is a strict switch: guarded calls pass only in the right state",
  "Pausing succeeds only when not paused and unpausing only when paused, each flipping the reported state and emitting its event with the caller; guards for the running and for the paused state pass exactly in their state. All other calls fail with the documented error and change nothing.",
  ["histories"], "all sequences of pause, unpause and guarded calls by several callers",
  "Tests check each guard once per state.",
  [T+"utils/pausable.rs"], [("when_paused/when_not_paused/_pause/_unpause", T+"utils/pausable.rs")],
  ["paused()", "Paused/Unpaused events"])
p("C22", "Nonces are used once each, in order, per account",
  "Each account's nonce starts at zero and every successful use returns the current value and advances it by exactly one, for that account only; a checked use succeeds exactly when the given value is the current one. A refused use reports the account and its current nonce and changes nothing.",
  ["histories", "inputs"], "all sequences of plain and checked uses by several accounts with past, current and future values",
  "Tests check one or two uses of one account.",
  [T+"utils/nonces.rs"], [("use_nonce/_use_checked_nonce", T+"utils/nonces.rs")], ["nonces()"])

# ---------------- finance ----------------
p("C23", "Vesting: releases follow the schedule exactly and go only to the owner",
  "At every time the vested amount of ether and of each token is the linear schedule applied to holdings plus past releases: nothing before the start, everything from the end on, rounded down in between. A release pays the current owner exactly vested minus already released and records it, so cumulative payments never exceed what is vested and what was paid; if the payment fails or the payee re-enters, nothing is lost or paid twice. If a token takes balance back so that less is vested than was released, asking for the releasable amount fails instead of returning a wrong number. Times and amounts read back as configured.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all sequences of time advances, deposits, releases and ownership transfers, for zero and non-zero durations and boundary times, with failing or re-entering payees and tokens",
  "Tests sample a few times with one deposit; they never combine late deposits, owner changes and failing payees.",
  [T+"finance/vesting_wallet.rs"],
  [("_vesting_schedule / releasable / release", T+"finance/vesting_wallet.rs")],
  ["vestedAmount()", "releasable()", "release()", "released()", "payments"])

# ---------------- utils ----------------
p("C24", "Checkpoint lookups return the value in force at the key",
  "After any sequence of insertions with non-decreasing keys, looking up a key returns the value of the greatest inserted key not above it (or of the smallest not below it), all lookup variants agree, and the newest value, length and positional access read back what was inserted. Re-inserting the newest key overwrites it, smaller keys are refused with the documented error and change nothing, and each insertion returns the previous and new value.",
  ["histories", "inputs"], "all insertion sequences up to a length beyond the small-trace shortcuts with repeated keys, all lookup keys around them, for every supported key/value width including maximal keys and values",
  "Binary search with shortcuts for recent keys goes wrong only for particular lengths and positions; tests sample a few.",
  [T+"utils/structs/checkpoints/mod.rs", T+"utils/structs/checkpoints/generic_size.rs"],
  [("push/_insert", T+"utils/structs/checkpoints/mod.rs"), ("lower/upper/recent binary lookup", T+"utils/structs/checkpoints/mod.rs")],
  ["push", "latest", "lower_lookup", "upper_lookup", "upper_lookup_recent", "at"])
p("C25", "Bitmap: setting or clearing one index affects exactly that index",
  "After any sequence of operations each index reads as last set or cleared, and operations on one index never change another, including neighbours in the same and adjacent storage words and the largest index.",
  ["histories", "inputs"], "all operation sequences over indices around word boundaries and extremes; all single indices of a word pair",
  "Tests sample random indices, not the exhaustive interaction of neighbours.",
  [T+"utils/structs/bitmap.rs"], [("bucket/mask arithmetic", T+"utils/structs/bitmap.rs")], ["get", "set", "unset", "set_to"])
p("C26", "Integer helpers are exact: square root, average and scaled division",
  "Square root returns the floor of the root, average the floor of the mean without overflow, and multiply-then-divide the exactly rounded quotient of the full product, down or up as requested, for all operands; division by zero and results beyond the word size fail instead of returning a wrong number.",
  ["inputs"], "all operands of small widths exhaustively and all combinations of boundary operands (around every power of two) at full width",
  "Property tests sample random operands, which almost never hit carry and rounding boundaries.",
  [T+"utils/math/alloy.rs"], [("sqrt/average/mul_div", T+"utils/math/alloy.rs")], ["sqrt", "average", "mul_div"])
p("C27", "Signature recovery yields the true signer or an error, never a wrong one",
  "Recovering from a well-formed signature yields exactly the signing account for the signed digest; malleable signatures (upper-half s) are refused with the documented error, and invalid recovery identifiers or components never yield an account. No two different accepted signatures of the same digest and key differ only by malleability.",
  ["inputs", "fault_sequences"], "all combinations of several keys, digests, recovery identifiers 0..255, and r/s at group-order boundaries, against an independent secp256k1 implementation",
  "Unit tests cannot execute the precompile; they only test the s-bound and constants.",
  [T+"utils/cryptography/ecdsa.rs"], [("s upper bound check, ecrecover precompile call", T+"utils/cryptography/ecdsa.rs")], ["recover()"])
p("C28", "Typed-data domains bind signatures to name, version, chain and contract",
  "The domain separator and the typed-data digest equal the EIP-712 encoding of the configured name, version, chain identifier and contract address, and the reported domain fields are those values; changing any one of them, or the message hash, changes the digest.",
  ["inputs", "configurations"], "all combinations of chain identifiers, contract addresses, message hashes and several name/version settings",
  "Tests check a single domain.",
  [T+"utils/cryptography/eip712.rs"], [("domain_separator_v4 / to_typed_data_hash", T+"utils/cryptography/eip712.rs")], ["eip712Domain()", "DOMAIN_SEPARATOR()", "digests"])
p("C29", "Interface detection and entry points follow the published standards",
  "Each token and access component reports support for exactly the interface identifiers of the standards it implements plus interface detection itself, and never for the reserved invalid identifier; interface identifiers computed for an interface equal the exclusive-or of its function selectors. Every standard function is reachable through its standard selector with standard argument and result encoding, and unknown selectors are refused.",
  ["inputs", "configurations"], "every contract component, every published interface identifier and all single-bit variations of them, and every standard function selector",
  "Tests assert single constants; they bypass the call-data dispatcher entirely.",
  [T+"utils/introspection/erc165.rs", "contracts-proc/src/interface_id.rs", T+"token/erc721/mod.rs", T+"token/erc1155/mod.rs", T+"token/common/erc2981.rs"],
  [("supports_interface implementations", T+"token/*/mod.rs"), ("interface_id macro", "contracts-proc/src/interface_id.rs")],
  ["supportsInterface()", "call-data dispatch"])
p("C30", "Re-entering callers and receivers cannot break any token invariant",
  "When re-entrancy is enabled and a called party (token, receiver, borrower, payee or beneficiary) calls back into the contract with any public operation during the outer operation, every conservation, backing, ownership and release invariant still holds afterwards, as if the operations had run one after another with the inner one at the point of the callback. Values read or written by the outer operation after the callback reflect what the inner call did.",
  ["schedules", "fault_sequences"], "every public operation as outer call with an external call-out, and every public operation (up to two) as the re-entrant inner call, for every component with call-outs",
  "Unit tests run in a host without storage cache and never re-enter.",
  [T+"token/erc20/utils/safe_erc20.rs", T+"token/erc20/extensions/erc4626.rs", T+"token/erc20/extensions/wrapper.rs", T+"token/erc20/extensions/flash_mint.rs", T+"token/erc721/mod.rs", T+"token/erc1155/mod.rs", T+"token/erc721/extensions/wrapper.rs", T+"finance/vesting_wallet.rs"],
  [("effects before call-outs; storage cache flushed and cleared around external calls", T+"token/erc20/utils/safe_erc20.rs")],
  ["all views after the outer call"])

# ---------------- crypto ----------------
p("C31", "Merkle proofs: accepted exactly when they rebuild the root",
  "For every complete binary tree built with sorted pair hashing, the proof of each leaf verifies and no other leaf, altered, shortened, extended or misordered proof verifies against the root. A multi-proof of every subset of leaves verifies, and no malformed or manipulated flags, leaves or proof make a value verify that is not in the tree; malformed multi-proofs give the documented errors and never panic.",
  ["inputs"], "all trees up to a bounded leaf count, all leaves and leaf subsets, all flag vectors, and all single mutations, with the real hash and a custom hasher",
  "Tests sample fixed trees and random mutations.",
  [C+"merkle.rs", C+"hash.rs", C+"keccak.rs"], [("verify/verify_multi_proof", C+"merkle.rs"), ("commutative_hash_pair", C+"hash.rs")],
  ["Verifier::verify", "Verifier::verify_multi_proof"])
p("C32", "Hashing is Keccak-256, independent of chunking; pair hash commutes",
  "The provided hasher equals Keccak-256 of the concatenated input however it is split into updates, pair hashing equals hashing the concatenation in order, and the commutative pair hash equals hashing the sorted pair, hence is symmetric.",
  ["inputs"], "all input lengths across several sponge blocks, all two-way splits of them, and all ordered pairs over a value alphabet that differ in any byte position",
  "Tests sample random inputs and only compare the hasher with itself.",
  [C+"keccak.rs", C+"hash.rs"], [("Keccak256 hasher", C+"keccak.rs"), ("hash_pair/commutative_hash_pair", C+"hash.rs")], ["hash outputs"])
p("C33", "Fixed-width big-integer arithmetic is exact for every width",
  "Addition, subtraction, doubling, halving, widening multiplication, remainder, comparison, bit access and iteration, bit length, bitwise operations, byte and string conversion agree with exact integer arithmetic for all operands and widths, with carry, borrow and overflow reported exactly; the platform-specific multiplication variants agree.",
  ["inputs"], "all combinations of boundary limbs per operand for several widths, and all bit positions",
  "Property tests sample uniformly random limbs, which practically never produce carry chains through all-ones limbs.",
  [C+"arithmetic/limb.rs", C+"arithmetic/uint.rs", C+"bits.rs", C+"const_helpers.rs"],
  [("limb carry primitives", C+"arithmetic/limb.rs"), ("Uint/WideUint operations", C+"arithmetic/uint.rs"), ("bit iterators", C+"bits.rs")], ["operation results"])
p("C34", "Prime-field arithmetic equals integer arithmetic modulo the prime",
  "For every field, conversion to and from integers round-trips modulo the prime, and addition, subtraction, negation, doubling, multiplication, squaring, powers, inversion, division, sums and products agree with integer arithmetic modulo the prime, always in canonical form; zero has no inverse. The predefined fields use their published primes and generators.",
  ["inputs", "configurations"], "all operand pairs of small prime fields exhaustively (with and without spare bit, one and several limbs) and all boundary operand pairs of the predefined fields",
  "Tests sample random operands of a single-limb field and fixed vectors.",
  [C+"field/fp.rs", C+"field/mod.rs", C+"field/prime.rs", C+"field/instance.rs", C+"field/group.rs"],
  [("Montgomery multiplication/reduction", C+"field/fp.rs"), ("binary inversion", C+"field/fp.rs"), ("pow", C+"field/mod.rs")], ["operation results via into_bigint"])
p("C35", "Elliptic-curve operations form the curve group in every representation",
  "For every short Weierstrass curve, addition, subtraction, negation, doubling, scalar multiplication, batch normalisation, equality and hashing of points in affine and projective form agree with the chord-and-tangent group law, including the point at infinity, opposite points, points of order two and any projective scaling; checked construction accepts exactly points on the curve in the prime-order subgroup.",
  ["inputs", "configurations"], "all point pairs in all projective scalings on several small curves (zero and non-zero a, cofactor one and above), all scalars beyond the group order, and multiples of a full-size generator",
  "Tests use one full-size curve with a zero coefficient and a few small multiples.",
  [C+"curve/mod.rs", C+"curve/sw/mod.rs", C+"curve/sw/affine.rs", C+"curve/sw/projective.rs", C+"curve/helpers.rs"],
  [("Jacobian add/mixed add/double", C+"curve/sw/projective.rs"), ("double-and-add", C+"curve/sw/mod.rs"), ("batch inversion", C+"curve/mod.rs")], ["affine coordinates"])
p("C36", "Poseidon2 equals the published permutation and sponge for all instances",
  "For each predefined instance the permutation equals the published definition (round structure, exponent, matrices, round constants) on every state, and is injective in particular; absorbing then squeezing any number of elements follows the sponge rule with the documented capacity and rate, independent of batching. Absorbing after squeezing is refused.",
  ["inputs", "configurations", "histories"], "all instances, all absorb/squeeze sequences up to beyond two rates, and all states over a boundary alphabet, against an independent implementation with matrices written out, for every supported state width",
  "Tests check one vector per instance.",
  [C+"poseidon2/mod.rs", C+"poseidon2/params.rs", C+"poseidon2/instance/*.rs"],
  [("permute/external/internal rounds", C+"poseidon2/mod.rs"), ("absorb/squeeze", C+"poseidon2/mod.rs")], ["squeeze outputs"])

p("C37", "Composed contracts keep the guarantees of all their components at once",
  "In contracts composed of several components, as the repository's examples compose them, all guarantees hold together after any history: while paused nothing is minted, burned or moved, the supply never exceeds the cap, both token enumerations follow every kind of move (also to the same account), guarded transfers pass only for the role's holders or the owner. Wrappers, vault and vesting wallet over the example tokens stay exactly backed and pay exactly what is due, also when the token is paused in between, and safe transfers into the token wrapper wrap for the sender.",
  ["histories", "configurations"], "all operation sequences to a bound of the unmodified example contracts, alone and deployed together, pausing at every point, with accepting and refusing receivers",
  "The examples have only end-to-end tests that need a running node; unit tests exercise one component at a time.",
  ["examples/*/src/lib.rs", "contracts/src/utils/pausable.rs", "contracts/src/token/erc20/extensions/capped.rs", "contracts/src/token/erc721/extensions/enumerable.rs", "contracts/src/access/*.rs"],
  [("when_not_paused guards", "contracts/src/utils/pausable.rs"), ("enumeration updates", "contracts/src/token/erc721/extensions/enumerable.rs"), ("compositions", "examples/*/src/lib.rs")],
  ["every public function and view of the example contracts", "events", "revert data"])

p("C38", "Refusals keep their standard encoding through every nesting of error types",
  "Every error a component can report is encoded as the selector of its published signature followed by its arguments, and arrives with exactly these bytes at the caller when an extension, a contract, or a contract inside another contract's error type passes it on; the reason given by a called contract is passed on byte for byte.",
  ["inputs", "configurations"], "every variant of every error type, directly, inside every extension that contains it, and nested once and twice in a contract, times boundary fields, also returned by a called contract",
  "Tests match on Rust enum variants and never look at the bytes a caller receives.",
  ["contracts/src/**/*.rs (Error types)"],
  [("impl MethodError for Error, derive(SolidityError)", "contracts/src/**/*.rs")],
  ["revert data"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
