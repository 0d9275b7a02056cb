#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
IP = "internal/party/"; PC = "internal/polycommit/"; BL = "internal/bls/"

p("C01", "An honest dealing gives every member a correct share of the secret",
  "When an honest dealer shares a secret with a committee of n = 3f+1 members, every member accepts, and the full shares all lie on one bivariate polynomial of degree f in the member coordinate and 2f in the other, whose value at the origin is the secret. The public commitments and evaluation witnesses each member stores bind exactly that polynomial at every index, including the interpolated ones, and any f+1 members' shares reconstruct the secret. Each member is sent only its own evaluations: nothing sent to any f members contains the secret, the dealer's column values, or another member's evaluations.",
  ["inputs", "configurations", "schedules"], "for every secret in the scalar field, every f in the supported range, every randomness of the dealer and every order in which members receive their dealing",
  "The existing test deals one fixed secret to one committee and only logs what each party got; it compares nothing with the dealer's polynomial, and never looks at what the messages disclose.",
  [IP+"client.go", IP+"VSS.go", IP+"party_utils.go"],
  [("dealer polynomials, commitments and witnesses", IP+"client.go:Client.Share"), ("verify then interpolate the full share", IP+"VSS.go:VSSShareReceive"), ("wire encoding of a dealing", IP+"party_utils.go:EncapsulateVSSSend/SetFromVSSMessage")],
  [("full share", "the member's univariate slice B(i,y)", IP+"party.go:HonestParty.fullShare"), ("commitments, witnesses", "public commitments to B(x,j) and the witnesses at i", IP+"party.go:HonestParty.Proof, witness")])

p("C02", "A member never adopts an inconsistent dealing",
  "A member that receives a dealing in which any part - the commitment to the secret, a column commitment, a blinding commitment or its zero proof, a column value commitment, an evaluation or its witness - does not fit the rest rejects it and keeps its previous state. The check accepts exactly the consistent dealings: consistent ones, however built, are adopted unchanged. In particular the adopted columns always lie on a polynomial of degree 2f whose constant term is the announced secret commitment.",
  ["inputs", "fault_sequences"], "for every dealing, valid or altered in any field or any combination of fields (including alterations that keep each local equation true)",
  "The tests contain only honest dealings, so no rejection branch is ever executed.",
  [IP+"VSS.go", IP+"party_utils.go"],
  [("consistency checks on a received dealing", IP+"VSS.go:VerifyVSSSendReceived"), ("adoption", IP+"VSS.go:VSSShareReceive")])

p("C03", "Reliable broadcast: agreement, validity and totality under faults",
  "In every instance of the reliable broadcast with at most f faulty members out of n = 3f+1, no two honest members deliver different messages; if the sender is honest, every honest member delivers exactly the sender's message; and if any honest member delivers, all do once outstanding messages arrive. This holds for every message content and length, when faulty members are silent, equivocate, repeat themselves, or send wrong fragments or digests.",
  ["schedules", "fault_sequences", "inputs"], "for every delivery order, every set of at most f faulty members (possibly including the sender) and their messages, every payload",
  "The test runs one payload among four honest parties in whatever order TCP gives, and prints the result; nothing asserts that outputs agree, and no party misbehaves.",
  [IP+"RBC.go"],
  [("echo and ready quorums", IP+"RBC.go:RBCReceive"), ("fragment decoding with digest check", IP+"RBC.go:RBCReceive"), ("payload encoding", IP+"RBC.go:RBCSend")])

p("C04", "Committee transfer delivers the true reduced shares",
  "When the old committee passes its shares on, every honest new member ends with the true column commitments and with its true reduced share: the degree-f slice of the old sharing polynomial at its index. This holds although up to f old members are silent, send wrong, inconsistent or repeated transfer messages, and whatever the order of arrival.",
  ["schedules", "fault_sequences", "configurations"], "for every sharing, every delivery order, every set of at most f faulty old members and their messages, different faults towards different receivers",
  "The test transfers once between all-honest committees and asserts nothing about the values received; no repeated or lying sender is ever present.",
  [IP+"ShareReduce.go", IP+"party_utils.go"],
  [("interpolating missing commitments and witnesses", IP+"ShareReduce.go:ShareReduceSend"), ("verify and group by commitment, f+1 quorum", IP+"ShareReduce.go:ShareReduceReceive"), ("f+1 matching announcements", IP+"ShareReduce.go:PrepareReceive")],
  [("reduced share", "B(x,i)", IP+"party.go:HonestParty.reducedShare")])

p("C05", "A handoff preserves the secret under every schedule",
  "When a sharing is handed from an old committee to a new one, all honest new members finish and hold full and reduced shares of one common bivariate polynomial of degree f by 2f whose value at the origin is the original secret. This holds for every order in which messages are delivered, with up to f silent or crashing members in each committee, without further help from the dealer.",
  ["schedules", "crash_points", "configurations"], "for every delivery order, message delay pattern and crash point of at most f members per committee, every secret",
  "The end-to-end test runs a few all-honest committees once over loopback, where messages arrive nearly in order, and does not reconstruct the secret at the end.",
  [IP+"ProactivizeAndShareDist.go", IP+"ShareReduce.go", IP+"VSS.go", IP+"RBC.go", IP+"main_process.go"],
  [("commit, reshare, vote, recover", IP+"ProactivizeAndShareDist.go"), ("agreement on the set of contributions", IP+"main_process.go:MainProcess"), ("refresh, new commitments, distribution, success quorum", IP+"ProactivizeAndShareDist.go")],
  [("full and reduced share", "B'(i,y) and B'(x,i)", IP+"party.go:HonestParty")])

p("C06", "A handoff tolerates lying members of the new committee",
  "If up to f members of the new committee send incorrect, inconsistent or repeated values in any step of the handoff - commitments, resharing points, votes, recovery points, new commitments, distributed points - the honest new members still finish, with shares of one common polynomial whose value at the origin is the original secret. No honest member adopts a value that does not fit the agreed commitments.",
  ["fault_sequences", "schedules", "inputs"], "for every set of at most f lying new members, every well-formed but wrong value in any message field towards any subset of receivers, every delivery order",
  "No test has a misbehaving committee member; every verification branch of the handoff that rejects something is dead in the test suite.",
  [IP+"ProactivizeAndShareDist.go"],
  [("verification of commitments and zero sum", IP+"ProactivizeAndShareDist.go (Verify)"), ("verification before voting", IP+"ProactivizeAndShareDist.go (Vote)"), ("verification of recovery points", IP+"ProactivizeAndShareDist.go (Recover)"), ("verification of new commitments and points", IP+"ProactivizeAndShareDist.go (ShareDist)")])

p("C07", "A handoff really refreshes the shares and keeps the threshold",
  "After a handoff the new sharing is a fresh one: its coefficients other than the constant term are re-randomised by contributions of at least f+1 members, so shares of the old and the new committee do not combine, and two handoffs of the same sharing differ. The degrees stay exactly f and 2f, so f members' shares never determine the secret and f+1 always do. No message of the handoff addressed to a member contains the secret or another honest member's private share values.",
  ["inputs", "configurations", "schedules"], "for every sharing, committee size and schedule, over the protocol's randomness",
  "Tests never inspect the polynomial after a handoff; dropping the refresh contribution entirely would pass every one of them.",
  [IP+"ProactivizeAndShareDist.go", IP+"client.go", "internal/polyring/polyring.go"],
  [("zero-constant random contributions", IP+"ProactivizeAndShareDist.go"), ("sum over the agreed contributors", IP+"ProactivizeAndShareDist.go (Refresh)"), ("random polynomials", "internal/polyring/polyring.go:NewRandPoly")])

p("C08", "Handoffs can be repeated from committee to committee",
  "A committee that obtained its shares through a handoff can in turn hand them to a further committee, any number of times, and after each handoff every honest member again holds shares of the original secret with commitments and witnesses that match them. The state a member keeps after a handoff is as complete as after a dealing.",
  ["histories", "configurations", "schedules"], "for every number of successive handoffs, every committee along the way, every schedule",
  "Every test stops after the first handoff, so the state a second one starts from is never used.",
  [IP+"ProactivizeAndShareDist.go", IP+"ShareReduce.go"],
  [("state left behind by a handoff", IP+"ProactivizeAndShareDist.go (ShareDist)"), ("state a transfer starts from", IP+"ShareReduce.go:ShareReduceSend, PrepareSend")],
  [("commitments, witnesses and their indexes", "needed to start the next transfer", IP+"party.go:HonestParty.Proof, witness, witnessIndexes")])

p("C09", "Agreement: honest members decide the same proposed value",
  "In every instance of the multi-valued agreement with at most f faulty members, all honest members that decide decide the same value, and the value decided was the input of some member. A value is decided only with the support of a quorum, and if all members propose the same value that value is decided.",
  ["schedules", "fault_sequences", "inputs"], "for every assignment of inputs, every delivery order, every set of at most f silent, crashing or equivocating members",
  "The test runs four honest parties once over loopback and prints the outputs without comparing them; the paths after the first view never run.",
  [IP+"main_process.go", IP+"message_handler.go", IP+"spb.go", IP+"pb.go"],
  [("two-stage provable broadcast", IP+"spb.go"), ("leader election, shortcut, pre-vote and vote", IP+"main_process.go"), ("quorum certificates", IP+"message_handler.go")])

p("C10", "Agreement terminates under every fair schedule",
  "If at most f members are silent or crash and every message sent between the others is eventually delivered, every other member decides, whatever the delays. This includes the executions that need several views because the elected leader's broadcast did not finish, or only some members hold its lock.",
  ["schedules", "crash_points"], "for every fair delivery order and crash point, in particular those delaying the elected leader so that pre-votes and votes are mixed",
  "On loopback the leader's broadcast always finishes first, so no test enters the pre-vote, vote or view-change code, let alone with mixed votes.",
  [IP+"main_process.go", IP+"message_handler.go"],
  [("pre-vote and vote tally", IP+"message_handler.go"), ("view change", IP+"main_process.go:MainProcess")])

p("C11", "Forged or misplaced certificates are never accepted",
  "No message makes an honest member echo, finish, lock, vote for, or decide a value unless it carries a valid quorum certificate for exactly that instance, view, member, stage and value. Certificates or signature shares made for another value, stage, view, instance or leader, repeated shares of one signer, or shares of fewer than a quorum never count.",
  ["inputs", "fault_sequences", "histories"], "for every certificate-carrying message and every altered, transplanted or replayed certificate or share",
  "All tests are honest runs in which every certificate is genuine, so a verification that always succeeds would pass.",
  [IP+"message_handler.go", IP+"spb.go", IP+"pb.go"],
  [("certificate verification on each message kind", IP+"message_handler.go"), ("second stage requires the first stage's certificate", IP+"spb.go:validator"), ("share verification and combination", IP+"pb.go:Sender")])

p("C12", "Threshold signing keys: exactly 2f+1 shares sign, and survive storage",
  "For keys generated for n = 3f+1 members, any 2f+1 valid signature shares on a message combine to the one signature that verifies under the public key, every combination gives the same bytes, and 2f shares or shares of altered keys do not. Keys written by the setup and read back by any member are identical everywhere and belong together, and the old and the new committee's keys are independent.",
  ["inputs", "configurations"], "for every committee size, message, subset and order of shares, and every generated key file",
  "The tests sign one message with the first shares only; key files are read back but the keys are never used or compared.",
  [IP+"keygen.go"],
  [("key generation", IP+"keygen.go:SigKeyGen"), ("key files", IP+"keygen.go:GenCoefficientsFile, SigKeyGenFix, SigKeyGenFix_New")])

p("C13", "Polynomial commitments are correct, binding in use, and homomorphic",
  "For every polynomial within the setup's size, the commitment is the generator raised to the polynomial at the setup secret, an honest evaluation proof verifies at every point, and a proof never verifies for another value, another point, another commitment or an altered proof. Commitments and proofs are linear in the polynomial, and the optimised and plain commitment routines agree.",
  ["inputs"], "for every polynomial (including zero, constant and leading-zero ones), every evaluation point including zero and the domain's roots, and every altered tuple",
  "Tests use one fixed polynomial and one point and mutate only the value by one.",
  [PC+"kzg_single_proofs.go", PC+"poly.go", PC+"kzg.go", PC+"setup.go"],
  [("commit", PC+"kzg_single_proofs.go:CommitToPoly"), ("quotient proof", PC+"kzg_single_proofs.go:ComputeProofSingle, poly.go"), ("pairing check", PC+"kzg_single_proofs.go:CheckProofSingle")])

p("C14", "Batch proofs equal the individually computed proofs",
  "A proof for a whole coset of points verifies exactly for the true values of the polynomial on that coset, for every coset offset and size. The fast all-proofs algorithms return, for every polynomial and position, exactly the proof that the direct method returns for that position or coset.",
  ["inputs", "configurations"], "for every polynomial, coset offset, coset size, chunk length and domain size in the supported ranges",
  "Tests check one polynomial, one offset and one chunk length, and only that the proof verifies for those.",
  [PC+"kzg_multi_proofs.go", PC+"fk20_single.go", PC+"fk20_multi.go"],
  [("coset proofs", PC+"kzg_multi_proofs.go"), ("fast single proofs", PC+"fk20_single.go"), ("fast coset proofs", PC+"fk20_multi.go")])

p("C15", "Fourier transforms and their relatives compute what they define",
  "On every vector and domain size, the forward transform equals evaluation of the polynomial at the domain's points in order, the inverse undoes it, and the group version commutes with exponentiation. The even-to-odd extension always yields the odd values of the unique polynomial of half degree, and sizes that do not fit the domain are refused; coset shifts scale coefficients as defined and undo each other, bit-reversal is the involution it names, and division agrees with schoolbook multiplication; inputs the routine must not change stay unchanged.",
  ["inputs", "configurations"], "for every vector, size within the domain, and domain size, on every arithmetic backend",
  "Tests use one or two fixed vectors per routine and compare with recorded constants or a round trip.",
  [PC+"fft.go", PC+"fft_fr.go", PC+"fft_g1.go", PC+"das_extension.go", PC+"reverse_bit_order.go", PC+"poly.go", PC+"recover_from_samples.go"],
  [("scalar transform", PC+"fft_fr.go"), ("group transform", PC+"fft_g1.go"), ("extension", PC+"das_extension.go"), ("bit reversal", PC+"reverse_bit_order.go")])

p("C16", "Erasure recovery restores exactly the encoded data",
  "For every polynomial of at most half the domain's degree and every pattern of at most half missing samples, both recovery algorithms return all original evaluations, and the vanishing polynomial they build is zero at the missing positions and non-zero elsewhere. Whatever the samples are, data that is returned agrees with every sample given and belongs to a polynomial of no more coefficients than samples were given.",
  ["inputs", "fault_sequences"], "for every data vector, domain size and pattern of missing samples, including very few, clustered, alternating and exactly half",
  "Tests recover one vector with a handful of recorded patterns; a few missing samples in a larger domain are not among them.",
  [PC+"recover_from_samples.go", PC+"zero_poly.go", PC+"legacy_recovery.go"],
  [("vanishing polynomial", PC+"zero_poly.go"), ("recovery by coset division", PC+"recover_from_samples.go"), ("legacy recovery", PC+"legacy_recovery.go")])

p("C17", "Scalar arithmetic is exact on every backend",
  "On each of the four selectable arithmetic backends, every scalar operation agrees with integer arithmetic modulo the group order for all operands, including zero, one, the largest element, aliased operands and 64-bit conversions. Encoding to 32 little-endian bytes and back is the identity, exactly the encodings below the order are accepted, decimal text round-trips, and no operation changes its inputs or the shared constants.",
  ["inputs", "configurations", "histories"], "for every operand tuple, every aliasing of destination and sources, every operation sequence, on each backend",
  "Unit tests check a few identities on random values on one backend at a time, with fresh destinations.",
  [BL+"bignum_kilic.go", BL+"bignum_hbls.go", BL+"bignum_hol256.go", BL+"bignum_pure.go", BL+"bignum_all.go", BL+"globals.go"],
  [("backends", BL+"bignum_*.go"), ("range check", BL+"bignum_all.go:ValidFr"), ("polynomial evaluation and combinations", BL+"globals.go")])

p("C18", "Group, pairing and point encodings obey their laws on every curve backend",
  "On both curve backends, point addition, subtraction, negation, multiplication and multi-scalar multiplication agree with the exponents they come from, the pairing check accepts exactly the equal products, and results do not depend on the order or aliasing of operands; lists of unequal lengths are refused. Points are printed alike exactly when they are equal. Compressed encodings round-trip, are the same bytes on both backends, and anything that is not the encoding of a group element is refused with an error.",
  ["inputs", "configurations"], "for all scalars and points including identity, equal and opposite points, all vector lengths, and all byte strings offered for decoding",
  "Tests check one pairing equation, a few random linear combinations and no malformed encodings.",
  [BL+"bls_kilic.go", BL+"bls_hbls.go", BL+"bls_all.go"],
  [("group operations", BL+"bls_kilic.go, bls_hbls.go"), ("encodings", BL+"bls_all.go"), ("pairing check", BL+"bls_kilic.go:PairingsVerify")])

p("C19", "Interpolation returns the unique polynomial through the points",
  "For all distinct indexes in any order and all values, interpolation returns the unique polynomial of the given degree through the points, and the interpolation coefficients used for values, commitments and witnesses reproduce every polynomial of that degree at every target, inside or outside the known indexes. Interpolating commitments gives the commitment of the interpolated polynomial.",
  ["inputs"], "for every degree, every set and order of distinct indexes, every target and all values",
  "The test interpolates random polynomials at random indexes but never uses the coefficient tables or interpolates commitments at unusual targets.",
  ["internal/polyring/interpolation.go", IP+"party_utils.go", IP+"party.go"],
  [("interpolation", "internal/polyring/interpolation.go:LagrangeInterpolate"), ("coefficients", IP+"party_utils.go:GetLagrangeCoefficients"), ("commitment and witness interpolation", IP+"party_utils.go:InterpolateComOrWit, InterpolateComOrWitByKnownIndexes")])

p("C20", "The transport delivers every message once, in order, and outlives its peers",
  "Every message put on a link arrives at the receiver exactly once, unchanged and in the order sent on that link, for any number of concurrent links and any message size or content. A peer that disconnects, sends a broken frame, or stops in the middle of one does not stop the node or disturb the other links, and nothing is delivered that nobody sent, such as a part of a message.",
  ["inputs", "fault_sequences", "histories"], "for every number of links, every sequence of messages of every size, every fragmentation of the byte stream, and every point at which a peer disconnects or sends garbage",
  "The test sends a few tiny messages between live peers over whole writes and prints them; nothing ever disconnects.",
  ["pkg/core/receive.go", "pkg/core/send.go", "pkg/utils/utils.go"],
  [("length-prefixed frames", "pkg/core/send.go:MakeSendChannel"), ("frame reader per connection", "pkg/core/receive.go:MakeReceiveChannel")])

p("C21", "Messages keep their content, and are routed by kind and instance",
  "Packing a protocol message and unpacking it returns the same content with the given kind, instance and sender, for every message kind and every content. A node hands each received message to exactly the consumer of its kind and instance, in arrival order, whether the consumer or the message comes first, and never to another one.",
  ["inputs", "histories", "schedules"], "for every message kind and content, all instance names including prefixes of each other and binary ones, and every interleaving of arrivals and consumers",
  "The test packs a few fixed messages; routing of interleaved instances with late consumers is never checked.",
  ["pkg/core/message_encapsulation.go", "pkg/core/dispatche.go", IP+"party_utils.go", "pkg/utils/utils.go"],
  [("packing", "pkg/core/message_encapsulation.go"), ("routing", "pkg/core/dispatche.go:MakeDispatcheChannels"), ("consumer side lookup", IP+"party_utils.go:GetMessage")])

p("C22", "Malformed messages never stop an honest node",
  "No message content from a faulty dealer or from up to f faulty members - truncated, empty, missing elements, out-of-range indexes, undecodable points or scalars, random bytes - makes an honest node crash. In dealing, transfer, broadcast, agreement and handoff the honest nodes treat such content as a message that was not valid, and still finish whenever the protocol tolerates its absence.",
  ["inputs", "fault_sequences"], "for every byte content of every protocol message kind from at most f members, at every step",
  "No test ever sends bytes that do not decode, so every decoding error path is unexecuted.",
  [IP+"VSS.go", IP+"ShareReduce.go", IP+"RBC.go", IP+"ProactivizeAndShareDist.go", IP+"message_handler.go", IP+"pb.go", IP+"party_utils.go"],
  [("decoding of each message kind", IP+"*.go"), ("point decoding", BL+"bls_kilic.go:FromCompressedG1")])

p("C23", "The node program carries a sharing through a handoff between real processes",
  "The node program, started once per member and dealer with the roles and options that its documentation and its script give, sets up its keys, shares the dealer's secret, and hands the sharing over, between two committees or from one committee to itself, over TCP. All members that stay up finish, whatever the order of their start, the relative speed of processes and links, and the crash of up to f processes of each committee; the sharing at the end has the dealt secret and fresh shares. Every member then writes its results: the latency of each phase, which is the time between the events that bound the phase at that member.",
  ["schedules", "crash_points", "configurations"], "for every order of starting, every delay of links and pauses of processes, every crash of at most f members per committee, both kinds of deployment and both sets of role names",
  "No test starts the program. Its main function, the lists, the roles and the recorded latencies, which are what the repository is for, are executed by hand only.",
  ["cmd/DyCAPs/main.go", "cmd/DyCAPs/test_multiCommittee.sh", IP+"party_utils.go", IP+"ShareReduce.go", IP+"ProactivizeAndShareDist.go", "pkg/core/send.go", "pkg/core/receive.go"],
  [("roles, lists, phases and result files", "cmd/DyCAPs/main.go:main"), ("time stamps of the phases", IP+"ShareReduce.go, ProactivizeAndShareDist.go"), ("links between processes", IP+"party_utils.go:InitSendChannel")],
  observe=["frames on the TCP links", "metadata/log*"])

p("C24", "An honest member says one thing, once",
  "In one instance of a protocol (a dealing, a broadcast, a view of the agreement, one member's contribution to a handoff) an honest member sends each other member at most one message of each kind, whatever the faulty members send, repeat or withhold and in whatever order things arrive. A message that is meant for everybody has the same content for all receivers, and a signature share goes to one receiver and for one content per instance. Only the final notice of an agreement's outcome may be repeated, with the same outcome. So faulty members cannot make an honest one contradict itself, or multiply traffic.",
  ["schedules", "fault_sequences", "inputs"], "for every behaviour of at most f faulty members, every repetition and reordering of messages, in every protocol",
  "The tests have no faulty member and look at results, never at what was sent on the way.",
  [IP+"VSS.go", IP+"RBC.go", IP+"pb.go", IP+"spb.go", IP+"message_handler.go", IP+"main_process.go", IP+"ShareReduce.go", IP+"ProactivizeAndShareDist.go"],
  [("one echo per broadcast, one ready per broadcast and sender", IP+"RBC.go"), ("one signature per instance", IP+"pb.go:pbReceiver"), ("one vote per view", IP+"message_handler.go, main_process.go"), ("one contribution", IP+"ProactivizeAndShareDist.go")],
  observe=["messages put into the send channels"])

p("C25", "Instances do not disturb each other",
  "Agreements and broadcasts that the same members run under different names, at once or one after the other at each member's own pace, end as each would alone: every honest member decides every agreement, all alike, on a value that was proposed in that very instance, and every broadcast of an honest sender is delivered as it was sent. This holds for all names, also for names that extend or contain one another, and when faulty members carry messages, certificates and contents from one instance into another.",
  ["inputs", "schedules", "fault_sequences", "histories"], "for every set of instances with different names, every interleaving of their messages, and every replay between instances by at most f faulty members",
  "The tests run one agreement, or broadcasts with similar names of one form, and no message ever turns up in another instance.",
  [IP+"main_process.go", IP+"message_handler.go", IP+"pb.go", IP+"spb.go", IP+"RBC.go", IP+"party_utils.go", "pkg/core/dispatche.go"],
  [("instance names of views and members", IP+"main_process.go:MainProcess"), ("signed strings", IP+"pb.go, message_handler.go"), ("routing", IP+"party_utils.go:GetMessage")],
  observe=["results of MainProcess and RBCReceive"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
