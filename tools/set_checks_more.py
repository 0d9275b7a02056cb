groups["party"] = {"pkg": "internal/party"}
P["C19"] = dict(runs=runs("pc", CURVE) + runs("party", CURVE), shards=4,
  technique=PBT + ": exact interpolation oracle for coefficients, values and commitments in exponents",
  rule="Degrees 0 to 24, distinct indexes in any order (1..n, subsets, permuted, with 0, edge values, uniform), values of drawn polynomials of full and lower degree, additional points; targets inside and outside the known indexes. Results are compared with the polynomial the points came from; commitments with the generator to its values. Non-trivial: degree at least 2.",
  level_note="Generated search with an exact big-integer oracle. Indexes are distinct, as the property says.")
groups["core"] = {"pkg": "pkg/core"}
P["C20"] = dict(runs=runs("core", [""]) + [dict(group="party", shards=1)], shards=6,
  technique=PBT + ": generated traffic and faulty peers over loopback TCP, compared with a queue per link",
  rule="One to six links to one to three receivers over loopback TCP, every message drawn (kind, instance, sender, length from 0 to several MiB, content); all messages must arrive once, unchanged and in the order of their link. In half of the cases peers misbehave at drawn moments: they close or reset, stop inside the length or the body, announce up to 4 GiB, send frames that are no message, receive a few bytes and vanish, or stop reading; receivers are read in bursts, late, or slowly, so that their channels fill up; afterwards new links must still work. Sequences of Send/Broadcast operations are compared with a model of the links. Non-trivial: at least two links and two messages, or a misbehaving peer.",
  level_note="Generated traffic over real sockets, one process per case. That a message never arrives is concluded only when no goroutine can run and the kernel holds no bytes of the connections. Peers that are not up when a link is made are outside the property, as the code documents.")
P["C21"] = dict(runs=runs("party", [""]), shards=4,
  technique=PBT + ": round-trips for packing, model-based operation sequences for routing",
  rule="Every agreement message kind with drawn fields of edge and random lengths, packed, sent over the wire form and unpacked; dealing messages of drawn points and values; sequences of received messages and consumers over up to ten (kind, instance) pairs with confusable names, sequentially with a queue model and with all consumers running at once. Non-trivial: some content (packing), at least two pairs used (routing).",
  level_note="Generated search against a queue model. Not more messages wait for one consumer than the code provides for (the square of the committee size).")
P["C12"] = dict(runs=runs("party", [""]), shards=8,
  technique=PBT + ": polynomial and signature oracles over generated committees, stored coefficients and signer subsets",
  rule="Committees of f = 1 to 4; keys generated directly, through the setup's files, and read from files of drawn coefficients (small, with leading zero bytes, near the order, zero inside). Shares must be the values of one polynomial of degree 2f and fit every commitment of the public key; drawn subsets of 2f+1 signers must give the same verifying bytes, 2f shares, altered shares, moved shares and shares of the other committee none. Repeated reads must agree; generated keys must not share coefficients. Every case is non-trivial.",
  level_note="Generated search with exact integer oracles for the shares. Independence is judged by coefficients that are equal or multiples, not statistically.")


_SIM = "Members run the real code, each case in a process of its own; the harness is the network and decides with the case when every message arrives, so what is concluded at the end is concluded when no message is left and no goroutine can run. "
_ASM = "At most f faulty members per committee, who sign only with their own keys and speak under their own number; no more messages wait for one consumer than the code provides for."
def party(k, technique, rule, note): P[k] = dict(runs=runs("party", [""]), shards=8, technique=PBT + ": " + technique, rule=_SIM + rule, level_note=note + " " + _ASM)

party("C01", "generated dealings and arrival orders judged against the interpolated bivariate polynomial, with a scan of all payloads for values their receiver must not learn",
  "Committees of f = 1 to 4, one to three dealings one after the other, of edge and uniform secrets, in generated arrival orders. The polynomial is interpolated from what the members hold: degrees f and 2f, the secret at the origin, commitments and witnesses of all indexes as the exponents of the harness's known setup secret demand. Every payload is searched for the secret and for other members' values. Processes with the code's own randomness must never draw the same values. Every case is non-trivial.",
  "Generated search with exact oracles in the exponents.")
party("C02", "one dealing per case of known exponents, altered in single parts and in groups of parts that keep some of the equations, against a reference acceptance predicate",
  "Dealings built from polynomials or from free exponents, then up to several alterations: any part, any index, by small, edge and uniform amounts, alone or with compensating changes; dealings for other members; encodings that are no canonical points or scalars; members with and without an earlier sharing. The member must adopt exactly the dealings of which every equation holds, unchanged, and keep its state otherwise. Non-trivial: the dealing fits although it was altered, or fails some of the equations only.",
  "Generated search; the oracle knows all discrete logarithms, so it decides every equation exactly.")
party("C03", "generated instances, schedules and faulty members' messages, judged by agreement, validity and totality when nothing is left to deliver",
  "f = 1 to 3, one to several broadcasts at once, of contents of 0 to some hundred bytes (also zeros, trailing zeros, no fields set); honest and faulty senders, crashes after part of the proposals were sent; proposals, echoes and readies of faulty members for any content with right, wrong, short, long or empty fragments and digests, repeated, to any subset, at any time. Non-trivial: something faulty or a crash happens.",
  "Generated search over schedules and faulty behaviour.")
party("C04", "generated sharings, arrival orders and faulty senders against the reference polynomial",
  "f = 1 to 3, one to three transfers of different sharings; up to f old members crash at a drawn message or lie: wrong, inconsistent, repeated, other members' or other sharings' commitments and shares, whole second sets that fit among themselves, mutated copies of their own messages, different for each receiver, before or after the honest ones. Every new member must end with the slice at its index and the true column commitments. Non-trivial: something faulty, or more than one transfer.",
  "Generated search with an exact reference.")
party("C05", "generated schedules and crash points of whole handoffs, judged against the original secret",
  "f = 1 to 2 (now and then 3); random, first-in, last-in, biased and starved delivery orders, delay rules by sender, receiver, kind and instance, up to f members of each committee that crash at a drawn message or never start. All others must finish with full and reduced shares of one polynomial of degree f by 2f with the original secret at the origin. Every case is non-trivial.",
  "Generated search over schedules of the complete protocol.")
party("C06", "generated alterations of faulty members' messages in every step of the handoff, and faulty proposals to the agreement, judged against the original secret and the agreed commitments",
  "Up to f new members run the code and have what they send altered: any message kind, any field (commitments, points, witnesses, indexes, signatures, sets), per receiver, replaced, repeated, dropped, or swapped with those of other members, instances and handoffs, or a consistent lie: everything the member sends follows from another polynomial, another blinding or another point, with only one equation broken; in a second group faulty members hand the agreement sets of contributions of their making with true, stale, plain, missing or random signatures. The honest members must all finish, with one polynomial and the original secret. Every case is non-trivial.",
  "Generated search over faulty behaviour and schedules of the complete protocol.")
party("C07", "generated handoffs judged by the polynomials before and after, by the contributions agreed on, and by a scan of all payloads",
  "Handoffs of one sharing with and without faulty members, repeated from the same state; the polynomials of both committees, of all contributions and their blinding are interpolated: degrees exactly f and 2f, every coefficient but the constant one changed, contributions of at least f+1 members in it, no equal or zero coefficients, two handoffs different; payloads are searched for the secret and for other honest members' values. Processes with the code's own randomness must never draw the same values. Every case is non-trivial.",
  "Generated search. Randomness is judged by values that are zero, equal, or missing, not statistically.")
party("C08", "generated chains of handoffs between committees, judged after every handoff",
  "One to several handoffs along a drawn path of committees, also back and to itself, members beginning the next handoff before others have finished the last, or all together; crashes, and faulty members that repeat messages of earlier handoffs. After each, every honest member's shares, commitments and witnesses must fit one polynomial with the original secret, as after a dealing. Every case is non-trivial.",
  "Generated search over histories of the complete protocol.")
party("C09", "generated schedules and faulty members of whole agreements, judged by agreement, origin of the value, and unanimity",
  "f = 1 to 2, all or some members propose equal or different values; a scripted faulty member that builds its own valid and invalid steps (locks shown to some, different broadcasts, stale keys), groups of receivers kept apart for a time, a member that broadcasts two values one after the other and shows each to others, mutated messages of faulty members, the leader known to the harness. Decided values must be equal, some member's input, and the common input if there is one. Non-trivial: the faulty members have something to do.",
  "Generated search over schedules and faulty behaviour.")
party("C10", "generated schedules and crash points of whole agreements that must end in every member's decision",
  "f = 1 to 2 (crashes at drawn messages, delays by kind, instance, sender and receiver), and schedules made for several views: the leader's broadcast kept back, its lock or key shown to drawn subsets, votes delayed until the next view; in a third group members whose messages to drawn receivers are lost for good before they crash. When no message is left, every member that is up must have decided, and no case may come to more than 64 views. Every case has crashes, delays or views.",
  "Generated search over schedules; that nothing can happen any more is decided exactly.")
party("C11", "one honest member whose every step is judged by the evidence it was given, among generated valid, forged and misplaced certificates and shares",
  "f = 1 to 2, one to three views; the harness plays all others with their keys and gives valid messages in drawn numbers (below, at and above the quorum) and forged ones: certificates and shares for another value, stage, view, instance, leader or member, of too few signers, repeated shares, other committees' keys, altered bytes, stale chains. Every echo, finish, vote, lock, recommendation, proposal and decision must have its quorum of distinct signers for exactly that string. Non-trivial: something forged is sent.",
  "Generated search against an independent record of the evidence.")
party("C22", "generated malformed contents in every step, structure-aware and random, with the honest members' completion as oracle",
  "Malformed contents by operation (truncated, empty, random bytes, elements missing, doubled or added, indexes out of range, points and scalars that cannot be decoded, certificates of wrong length, nested messages broken) in dealings, transfers, broadcasts, agreements and handoffs, by the faulty dealer or up to f faulty members, one or many at once, before, after or beside the honest ones (the malformed message first and the proper one of the same sender behind it). No honest member may crash, and all must finish as the property of that step says. Every case is non-trivial.",
  "Generated search; any crash of a case's process is a violation.")
party("C24", "generated faulty behaviour and schedules of every protocol with a record of what each honest member says in each instance",
  "The cases of the other properties (dealings, transfers, broadcasts, certificates, agreements, handoffs) with their faulty members, repeated, malformed and reordered messages, forged and valid certificates. Every message of every honest member is recorded by kind, instance and receiver: at most one to each, of the kinds for everybody one content for all, at most one receiver of a signature share in an instance. Halt may be repeated with the same value. Non-trivial: as in the case's own property, with something recorded.",
  "Generated search; what else goes wrong in a case is judged by that case's own property.")
party("C25", "generated sets of agreements and broadcasts among the same members, with names that resemble each other and messages carried from one into another",
  "f = 1 to 2; one to three agreements and up to three broadcasts at once, or the agreements one after the other at each member's own pace; names drawn as extensions of each other by views, members and stages, with kinds of messages in front, or empty; faulty members send their messages also, first or only in another instance, or with the content of another. Crashes and schedules as in C10. Every instance is judged on its own: one decision, proposed in that instance, at every member; broadcasts delivered by all or none, and as sent if the sender is honest. Non-trivial: more than one instance.",
  "Generated search over schedules and sets of instances.")

groups["cmd"] = {"pkg": "cmd/DyCAPs"}
P["C23"] = dict(runs=runs("cmd", [""]), shards=3,
  technique=PBT + ": generated deployments of the node program as processes over TCP, with links delayed and processes paused or killed, judged from the frames on the wire and the result files",
  rule="The node program itself as 9 to 15 processes (setup, a dealer, one or two committees, f = 1 and 2), with the roles of its help or of the script, started in a drawn order; every link between two members passes a relay of the harness, which delays frames by link and kind; up to f members of each committee are killed and others stopped for a while after a drawn number of frames. All members that are up must finish and write their results; the sharings before and after are interpolated from the wire: same secret, exact degrees, refreshed shares; every recorded latency must be possible for the times at which the frames passed. Non-trivial: some link is delayed, or a member is killed or paused.",
  level_note="Generated search over deployments of real processes. That a handoff never ends is concluded when for 15 s no message is under way, and no process uses the processor or could run. Latencies are compared with bounds that follow from the order of events, not with expected durations. Not reproducible to the instruction: processes are scheduled by the system.")

# Runs under the race detector: the same cases, fewer of them (lib/vlib/race.go).
for k, q in {"C03": .05, "C04": .05, "C05": .08, "C06": .05, "C09": .05, "C10": .04, "C11": .05, "C22": .05}.items():
    P[k]["runs"].append(dict(group="party", tag="", race=True, scale=dict(quick=q, thorough=.05), shards=4))
    P[k]["rule"] += " A part of the cases runs under Go's race detector: two unordered accesses to a map, or two unordered writes to a variable, of which one is lost or which end the process when they meet, are violations."
P["C20"]["runs"].append(dict(group="core", tag="", race=True, scale=dict(quick=.06, thorough=.05), shards=4))
P["C20"]["rule"] += " A part of the cases runs under Go's race detector: unordered accesses to a map, or unordered writes to a variable, are violations."
