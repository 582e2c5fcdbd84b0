#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                        "observe_at": observe, "hook_needed": None}}

KG = ["pkg/frost/keygen/base.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go"]
SG = ["pkg/frost/sign/base.go", "pkg/frost/sign/round0.go", "pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/frost/sign/party.go"]
POLY = ["pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go"]
MSG = ["pkg/messages/messages.go", "pkg/messages/header.go", "pkg/messages/marshalling.go", "pkg/messages/keygen1.go", "pkg/messages/keygen2.go", "pkg/messages/sign1.go", "pkg/messages/sign2.go"]
ST = ["pkg/state/state.go", "pkg/state/error.go", "pkg/state/base_round.go"]

props = [
P("C01", "Honest key generation yields one consistent threshold sharing",
  "When all parties follow the key generation protocol, every party finishes without an error, all hold the same party list, threshold, group key and public shares, and each party's secret share is the discrete logarithm of its public share and carries its own ID. Interpolating the secret shares of any t+1 parties at zero gives the discrete logarithm of the group key, which is the sum of the constants all parties committed to. The outputs do not depend on the order in which parties' messages are combined.",
  ["inputs", "configurations"], "all party counts, ID sets and thresholds within bounds; all random choices of all parties; both map iteration orders",
  "The tests run a few fixed party sets with random coins and check only that a signature comes out; they cannot cover all ID sets, thresholds and coefficients, and never check that every t+1-subset agrees.",
  KG + POLY + ["pkg/eddsa/public.go", "pkg/eddsa/secret_share.go"],
  [("sum of all commitment polynomials", "keygen/round1.go ProcessMessage"), ("share sum", "keygen/round2.go ProcessMessage"), ("public shares by evaluation in the exponent", "keygen/round2.go GenerateMessages")],
  ["keygen Output of every party", "messages sent"]),
P("C02", "t shares and everything sent privately say nothing about the secret",
  "The private values that any t parties obtain in key generation or from dealing are statistically independent of the group secret and of every other party's contribution: each party's polynomial has exactly the requested degree, and every coefficient and proof nonce is drawn freshly and independently in every run. No unused randomness is shared between parties, runs or purposes, and no party's polynomial is ever evaluated at zero for anyone.",
  ["inputs", "configurations"], "every coalition of t parties, every threshold and ID set within bounds, all random choices",
  "A test sees single values and cannot observe that a distribution has full rank; a polynomial of too low degree or a reused coefficient still passes every functional test.",
  POLY + KG + ["pkg/internal/scalar/scalar.go", "pkg/helpers/keys.go", "pkg/internal/zk/schnorr.go"],
  [("coefficient sampling", "polynomial.go NewPolynomial"), ("secret sampling", "scalar.go SetScalarRandom"), ("refusal to evaluate at zero", "polynomial.go Evaluate")],
  ["key generation messages to each party", "dealt shares", "reads of the random source"]),
P("C03", "A cheating key generation party is caught and named by whom it cheats",
  "A party accepts a first-round broadcast only if it proves knowledge of its constant term under the sender's identity and has exactly threshold+1 commitments, and a private share only if it matches the sender's commitments at the receiver's ID; otherwise it aborts, blames exactly the sender, and produces no key. Parties that do finish all agree on the group key and public shares, and hold shares that match them, whatever the cheaters sent.",
  ["inputs", "fault_sequences", "configurations"], "every deviation of one or two parties within the listed kinds, with arbitrary values",
  "The tests contain no misbehaving party at all.",
  KG + ["pkg/internal/zk/schnorr.go"] + POLY,
  [("proof check", "keygen/round1.go ProcessMessage"), ("degree check", "keygen/round1.go / exponent.go Add"), ("share check", "keygen/round2.go ProcessMessage")],
  ["WaitForError of every honest party", "keygen Output"]),
P("C04", "The proof of knowledge is complete, sound, bound to its prover, and hiding",
  "A proof made by an honest prover verifies for its statement, prover ID and context, also after encoding. No proof whose values were fixed before the challenge was derived, no modified proof, and no proof presented for another statement, prover ID or context verifies. Each proof uses a fresh nonce, so its values are independent of the secret.",
  ["inputs"], "all secrets, nonces, IDs, contexts and modifications",
  "The test checks one honest proof; forgeries have to be excluded for all values, and a challenge that ignores one of its inputs passes.",
  ["pkg/internal/zk/schnorr.go"], [("challenge hash", "schnorr.go challenge"), ("verification equation", "schnorr.go Verify")],
  ["Verify result", "encoded proof"]),
P("C05", "Every group of at least t+1 honest signers produces a valid Ed25519 signature",
  "For keys from key generation or a dealer, every subset of at least t+1 parties that follows the signing protocol on any message finishes without error, all with the same signature, and that signature verifies under the group key both by this library and by standard Ed25519. The same keys can be used for any number of consecutive or interleaved signings.",
  ["inputs", "configurations"], "all keys, nonces and messages within bounds; every signer subset of at least t+1 parties",
  "The tests sign a fixed message with one or two fixed subsets.",
  SG + ["pkg/eddsa/signature.go", "pkg/eddsa/public_key.go", "pkg/frost/party/id.go"],
  [("Lagrange-scaled shares", "sign/base.go NewRound"), ("response", "sign/round1.go GenerateMessages"), ("aggregation and final check", "sign/round2.go GenerateMessages")],
  ["sign Output of every signer", "crypto/ed25519 verification equation"]),
P("C06", "A cheating signer is caught and named; no invalid signature is ever output",
  "A signer accepts another signer's response exactly if it is the one determined by that signer's announced nonce commitments, public share, the message and the signer set; otherwise, and if a nonce commitment is the identity, it aborts and blames exactly that sender. A signer that finishes without an error holds a signature that is valid for the message and group key, and fewer than t+1 signers never obtain one.",
  ["inputs", "fault_sequences", "configurations"], "arbitrary responses, commitments and key shares of one or two misbehaving signers; too small signer sets",
  "The tests contain no misbehaving signer at all.",
  SG, [("identity check", "sign/round1.go ProcessMessage"), ("share verification", "sign/round2.go ProcessMessage"), ("final verification", "sign/round2.go GenerateMessages")],
  ["WaitForError", "sign Output"]),
P("C07", "Signing nonces are fresh and bound to the whole signing session",
  "Each signer's two nonces are drawn freshly and independently for every signing, and its response reveals no linear relation about the key share. The binding factor of each signer depends on the message, on every signer's ID and both its commitments, and on the signer itself, so that changing any of them changes it, and all signers compute the same factors for the same session.",
  ["inputs", "configurations"], "all pairs of sessions that differ in exactly one component; all nonces",
  "A dropped or truncated input of the binding hash leaves honest signing working, so functional tests pass while the scheme is forgeable.",
  SG, [("binding factors", "sign/round1.go computeRhos"), ("nonce sampling", "sign/round0.go GenerateMessages")],
  ["responses of the signers", "group commitment in the signature"]),
P("C08", "Signature verification agrees with Ed25519 and nothing else verifies",
  "Verification accepts a signature exactly if the standard Ed25519 equation holds for the cofactor-free encodings of key and nonce point, independent of how points are represented internally. A signature does not verify for another message, key, nonce point or response, and values fixed before the challenge was derived never verify. Converting keys and signatures to the Ed25519 format gives the standard encodings.",
  ["inputs"], "all keys, nonce points in every internal representation, responses, messages",
  "Tests verify a few honest signatures; representation-dependent encodings appear for one in eight internal representations only.",
  ["pkg/eddsa/signature.go", "pkg/eddsa/public_key.go", "pkg/ristretto/ristretto.go"],
  [("challenge", "signature.go ComputeChallenge"), ("equation", "public_key.go Verify"), ("cofactor-free encoding", "ristretto.go BytesEd25519")],
  ["Verify result", "ToEd25519 bytes"]),
P("C09", "Messages survive the wire, with one encoding per message",
  "Every message the library creates encodes, and decodes to an equal message with the same type, sender, addressee and contents; encoding does not change the message, and announced sizes are right. Different messages are not equal and have different encodings, every byte string that decodes re-encodes to itself, and a message with an inconsistent header or without its payload is not encoded.",
  ["inputs"], "all contents of all message types; all byte strings up to the bound",
  "The tests round-trip one random message of each type and never start from arbitrary bytes.",
  MSG + ["pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go", "pkg/eddsa/signature.go"],
  [("header", "messages/header.go"), ("payload codecs", "messages/*.go")],
  ["MarshalBinary / UnmarshalBinary / Equal / Size"]),
P("C10", "Bytes from the network never crash a party or produce a half-built message",
  "Decoding arbitrary bytes returns an error or a complete message whose parts are all usable; it never panics. A party of a running key generation or signing that receives arbitrary bytes at any point neither panics nor blocks.",
  ["inputs", "histories"], "all byte strings up to the bound, into every decoder and into a party at every round",
  "The tests never decode malformed bytes.",
  MSG + POLY + ["pkg/internal/zk/schnorr.go", "pkg/eddsa/signature.go", "pkg/eddsa/secret_share.go", "pkg/ristretto/ristretto.go"],
  [("length and canonicity checks", "every UnmarshalBinary")],
  ["panic", "error results"]),
P("C11", "Message delivery order, duplicates and strangers do not change the outcome",
  "A party accepts exactly the messages that are for it, from another participant, of the current or a later round, and the first of their kind from that sender; everything else is refused or ignored without any effect, and each accepted message is processed exactly once, in its round. Therefore, every delivery order of the protocol messages, including early messages of the next round, duplicates and foreign messages, leads all honest parties to the same result as the in-order run.",
  ["schedules", "inputs", "histories"], "all sequences of deliveries and processing calls within bounds; arbitrary headers",
  "The tests deliver every message in lock step; they have no early, duplicate or foreign messages.",
  ST, [("admission", "state.go HandleMessage"), ("queue for later rounds", "state.go ProcessAll")],
  ["HandleMessage result", "messages and outputs of the party"],
  [("receivedMessages", "messages stored for the current round", "state.go State"), ("queue", "messages for later rounds", "state.go State")]),
P("C12", "Rounds advance exactly once, in order, when all messages have arrived",
  "A party produces the messages of a round exactly once, only after it has a message from every other participant for that round, and processes each round's messages before producing output; processing calls at any other time have no effect and produce nothing. After the last round it is finished and all later calls have no effect.",
  ["schedules", "histories"], "all interleavings of deliveries and processing calls within bounds, all party counts within bounds",
  "The tests call the processing step in lock step only.",
  ST, [("all-received check", "state.go ProcessAll"), ("round switch", "state.go ProcessAll")],
  ["messages returned by ProcessAll", "IsFinished"]),
P("C13", "A protocol error aborts once, finally, and leaves no output",
  "When any step of a round fails, the party aborts at once: it reports the first error with the culprit and the round in which it occurred, wakes everybody waiting for the result, returns no messages, fills in no output, and refuses everything afterwards. Waiting returns this error every time, and a successful run reports no error; an abort is possible at every point without crashing.",
  ["fault_sequences", "histories"], "a failure at every step of every round, for every message, followed by any further calls",
  "The tests contain no failing round.",
  ST + KG[:1] + SG[:1], [("abort", "state.go reportError / finish"), ("result", "state.go WaitForError / Err")],
  ["WaitForError / Err / Done / IsFinished", "Output"]),
P("C14", "The timeout fires exactly when no message was accepted for its duration",
  "With a timeout set, a party aborts with an error that blames nobody exactly if the time since its start or its last accepted message exceeds the timeout; refused and ignored messages do not extend it. With timeout zero it never aborts by time, a finished protocol is not affected by time, and a timeout at any point, including before the first round, does not crash.",
  ["schedules", "histories", "crash_points"], "all delivery times on either side of the deadline, at every point of the protocol",
  "The tests use no timeout or one that is never reached.",
  ST + KG[:1] + SG[:1], [("timer", "state.go timer / ackMessage / stopTimer")],
  ["Done / WaitForError over time"]),
P("C15", "Lagrange coefficients interpolate exactly",
  "For every list of distinct non-zero IDs and every member, the coefficient is the one by which shares of a polynomial of degree below the number of IDs combine to its value at zero; it is refused for ID zero and for non-members. The group key computed from public shares is the interpolation of those shares.",
  ["inputs", "configurations"], "arbitrary IDs up to n within bounds, any member position, all polynomials",
  "The tests check that coefficients of small consecutive IDs sum to one.",
  ["pkg/frost/party/id.go", "pkg/eddsa/public.go"], [("coefficient", "id.go Lagrange"), ("group key", "public.go computeGroupKey")],
  ["Lagrange result", "NewPublic group key"]),
P("C16", "Party IDs and party lists behave as ordered sets of identifiers",
  "Building a list from IDs sorts it and keeps all of them without changing the input; membership, subset, equality and copy agree with their set meaning for sorted lists of any IDs. IDs survive their binary and text encodings, map to the scalar of the same value, distinct IDs have distinct encodings and scalars, and malformed text or short bytes are refused. A randomly chosen ID is valid.",
  ["inputs"], "arbitrary 16-bit IDs, lists up to the bound, arbitrary text up to the bound",
  "The tests check a few literal lists and IDs.",
  ["pkg/frost/party/id.go", "pkg/frost/party/idslice.go"], [("sorted slice", "idslice.go NewIDSlice"), ("binary search", "idslice.go Contains")],
  ["results of the list and ID operations"]),
P("C17", "Stored key material loads back exactly, and inconsistent material is refused",
  "Secret shares and public key material survive their binary and JSON encodings, loaded material is fully usable, and material compares equal exactly when its contents agree. Decoding arbitrary documents never crashes and returns an error when an identifier or threshold is out of range, a share or the group key is missing or malformed, the threshold does not fit the number of shares, or the group key is not the interpolation of the shares.",
  ["inputs"], "all key material within bounds; JSON documents with arbitrary field values; all byte strings up to the bound",
  "The tests round-trip one random value and never load malformed material.",
  ["pkg/eddsa/secret_share.go", "pkg/eddsa/public.go", "pkg/eddsa/public_key.go", "pkg/frost/party/id.go", "pkg/ristretto/ristretto.go"],
  [("checks while loading", "public.go UnmarshalJSON / NewPublic"), ("share codec", "secret_share.go")],
  ["Unmarshal results", "Equal"]),
P("C18", "Polynomial arithmetic in scalars and in the exponent agrees",
  "For every polynomial, committing and evaluating commute: evaluating the commitments at any point gives the commitment to the evaluation, by each of the evaluation algorithms. Sums, copies, resets, degrees, constants and encodings of commitment polynomials match their mathematical meaning, adding polynomials of different degree is refused without effect, copies share no memory with the original, and evaluating at zero is refused.",
  ["inputs", "configurations"], "all coefficients and evaluation points, degrees within bounds",
  "The tests compare single random evaluations.",
  POLY, [("Horner evaluation", "polynomial.go Evaluate"), ("multi-scalar evaluation", "exponent.go evaluateVar"), ("sum", "exponent.go Add / Sum")],
  ["results of the polynomial operations"]),
P("C19", "Parties share no mutable state through messages, inputs or outputs",
  "Messages delivered by reference, inputs given at setup and outputs handed out are independent of a party's internal state: whatever the sender does after sending, another receiver does on processing, or the caller does with its message slices and results, no other party's run, message or output changes; only the secret share addressed to a party may be erased by it. Running all parties in one process by reference gives the same result as running them over the wire.",
  ["schedules", "histories", "configurations"], "all delivery orders by reference, all parties within bounds",
  "The tests always serialize messages, or check only the happy path.",
  KG + SG + MSG, [("copies on message creation", "messages/*.go New*"), ("copies on reception", "keygen/round1.go, sign/round1.go")],
  ["messages after delivery", "outputs of all parties"]),
P("C20", "Group element encoding, decoding and equality follow the Ristretto rules",
  "Two group elements are equal exactly if they differ by a torsion point, equal elements have the same encoding and different elements different ones, and an encoding decodes to an equal element. A byte string decodes only if it is the one canonical encoding of the decoded element, and a refused one leaves the receiver unchanged; hashing 64 bytes to an element is the standard map.",
  ["inputs"], "all points in every internal representation, and all byte strings, in a scaled-down instance of the curve",
  "Fixed vectors and random points touch none of the exceptional cases.",
  ["pkg/ristretto/ristretto.go"], [("encode", "ristretto.go bytes"), ("decode", "ristretto.go SetCanonicalBytes"), ("equality", "ristretto.go Equal")],
  ["Bytes / SetCanonicalBytes / Equal"]),
P("C21", "Secrets are erased when they are no longer needed",
  "When a key generation or signing ends, successfully or by an abort or timeout at any point, no memory reachable from the party's protocol object still holds its polynomial coefficients, received shares, nonces or key share. The only remaining copies are in the output handed to the caller and in the caller's own inputs.",
  ["histories", "crash_points", "fault_sequences"], "the end of the protocol reached at every point, by completion, error or timeout",
  "No test looks at memory after the protocol ended.",
  KG + SG + ["pkg/state/state.go"] + POLY[:1], [("erasure", "keygen/base.go Reset, sign/base.go Reset"), ("called at the end", "state.go finish")],
  ["memory reachable from the protocol object"]),
P("C22", "Concurrent use of a party object is free of data races and deadlocks",
  "Delivering messages, processing, waiting for the result, querying the state and the timeout may happen concurrently from any number of threads: no data race and no deadlock occurs, every waiter is woken when the protocol ends, and the result is the same as for some sequential order. Reading the output after waiting returned is safe, and different sessions may run at the same time.",
  ["schedules"], "all interleavings within the preemption bound of the listed concurrent calls",
  "The tests run each party in one goroutine.",
  ST, [("mutex", "state.go mtx"), ("done channel", "state.go doneChan")],
  ["data races", "deadlocks", "results"]),
P("C23", "The dealer and party-list helpers produce what they promise",
  "Dealt secret shares are a threshold sharing of the returned secret with the matching public material, for every party list and threshold below its size, and a threshold that does not fit is refused. The generated list of n parties is 1..n for every n, and driving a party by encoded messages is the same as driving it directly.",
  ["inputs", "configurations"], "all party lists and thresholds within bounds, all n",
  "The helpers are used by tests but their promise is not checked.",
  ["pkg/helpers/keys.go", "pkg/helpers/parties.go"], [("dealing", "keys.go"), ("list", "parties.go NewPartySlice")],
  ["helper results"]),
P("C24", "No secret is ever made without randomness",
  "If the system's random source fails at any draw or delivers fewer bytes than asked for, no message, share, key or signature that depends on the missing randomness is produced and no default value is used in its place. The failure is not silent.",
  ["fault_sequences"], "a failure or a short read at every single draw of key generation, signing, dealing and proving",
  "The tests never make the random source fail.",
  ["pkg/internal/scalar/scalar.go"] + POLY[:1] + ["pkg/internal/zk/schnorr.go"], [("error check after each draw", "scalar.go, polynomial.go, schnorr.go")],
  ["messages produced after a failed draw"]),
P("C25", "Group operations compute the arithmetic of the prime-order group",
  "Sums, differences, negations, products with a scalar and sums of products give the element the group law says, for all elements and scalars, whatever the receiver held before and however receiver and operands are the same object; operands are never changed, and operations on different receivers may run concurrently. The constant-time and the variable-time algorithms agree, lists of different lengths are refused, and elements keep their value over their binary and text encodings, with malformed ones refused and the receiver left as it was.",
  ["inputs", "configurations"], "all elements and scalars, all aliasings of receiver and operands, lists and texts up to the bound",
  "The tests compare a few random products into fresh receivers, never aliased or reused ones.",
  ["pkg/ristretto/ristretto.go"], [("group operations", "ristretto.go Add, Subtract, Negate, ScalarMult, ScalarBaseMult"), ("sums of products", "ristretto.go MultiScalarMult, VarTimeMultiScalarMult"), ("text codec", "ristretto.go MarshalText, MarshalJSON")],
  ["results of the element operations"]),
P("C26", "The command line tools produce valid key files and valid signatures only",
  "Key generation from the command line writes, for every threshold t and party count n with 0 < t < n < 100, a file with the matching secret and public material of all n parties from one sharing of threshold t and prints the group key and shares in it; otherwise it shows its usage or an error and leaves an earlier file alone, and it never reports success without the file. The signing tool, given such a file and any message, prints a signature that the library and Ed25519 accept under the group key; given anything else it reports a problem without printing a signature or crashing.",
  ["inputs", "fault_sequences", "configurations"], "all number arguments, key files with arbitrary contents of the stated form, failing reads and writes",
  "The tools have no tests.",
  ["cmd/keygen/keygen.go", "cmd/signer/signer.go"], [("argument checks and output", "keygen.go main"), ("loading, signing and verification", "signer.go main")],
  ["files written", "text printed", "exit"]),
P("C27", "Setting up a protocol accepts exactly what it can run",
  "Starting a key generation succeeds exactly if the listed identifiers are distinct and not zero, the own one is among them, and the threshold is at least one and below their number; starting a signing succeeds exactly if the listed signers are distinct, include the owner of the share and all belong to the public material. A refusal is an error with nothing else, never a crash; the list, message and key material given are not modified and later changes of the list have no effect. The order of the list does not matter: parties that were given the same identifiers in different orders complete together and agree.",
  ["inputs", "configurations"], "all lists of identifiers, also invalid ones, all own identifiers and all thresholds, every order of the list at every party",
  "The tests use ascending lists of valid identifiers only.",
  ["pkg/frost/frost.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/state/base_round.go", "pkg/frost/party/idslice.go"], [("threshold check", "keygen/base.go NewRound"), ("signer checks", "sign/base.go NewRound"), ("party list checks and order", "base_round.go NewBaseRound")],
  ["error returned", "first messages", "senders accepted", "outputs"]),
]

TECH = "bounded symbolic execution of the code's go/ssa form, queries decided by an SMT solver"
NOTE = {
}
GENERIC = "Bounded: every path of the real code (go/ssa of the working tree) within the bounds in the evidence file is executed with symbolic inputs and every assertion decided by z3; counterexamples count only when they reproduce natively. Trusted: the SSA executor, its models of edwards25519 (prime-order group by discrete logarithm, field of integers mod q) and SHA-512 (injective, unpredictable), cross-checked by native replay of explored paths."

na = {}
claimed = [p["id"] for p in props if os.path.isdir(os.path.join(here, "harness", p["id"].lower()))]
for p in props:
    if p["id"] not in claimed and p["id"] not in na:
        na[p["id"]] = "check not built yet"

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check -build",
     "checks": [{"property": c, "quick_cmd": "./check %s quick" % c, "thorough_cmd": "./check %s thorough" % c,
                 "technique": TECH, "level": "model_checking", "level_note": NOTE.get(c, GENERIC),
                 "evidence_file": "evidence/%s.json" % c} for c in claimed],
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "One solver-based checker (gosym) decides all properties; see DESIGN.md. No hooks in /repo are needed: harnesses are added by overlay."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
