#!/usr/bin/env python3
"""Writes properties.jsonl and the checks of MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, level, technique, note, state=None, observe=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                level=level, technique=technique, note=note, state=state or [], observe=observe or [], na=na)

TOY = ("Exhaustive within the stated bounds, on the repository's own code linked against a group library that represents group elements by their discrete logarithms "
       "(same truth values as BN254); marked traces are replayed on BN254 and must observe the same. ")

PROPS = [
P("C01", "Reads return what was last set",
  "After any sequence of updates, reading an id returns exactly the amount last set for it, and reports an id that was never set as absent, whatever other ids share parts of its path. "
  "Refused updates (negative amounts, malformed ids) change nothing, and separate liability sets never influence each other.",
  ["histories", "configurations"], "all histories of updates, refused updates and reads, for every fanout and both kinds of tree",
  "The tests set one to three ids once each and read them back; they never update an id, mix refused operations in, or use colliding paths systematically.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go"], [("sparse.Tree.Put / Get", "sparse/tree.go"), ("LiabilitySet.Set / Get", "pol/pol.go")],
  "model_checking", "explicit enumeration of all operation sequences up to a depth against a map as reference model, on the real code",
  TOY + "Amounts and ids outside the alphabet, longer histories and concurrent use of one set are not covered.",
  [("Tree.Root", "in-memory tree of vertices", "sparse/tree.go")], ["LiabilitySet.Get", "verkle.Tree.Get"]),

P("C02", "The commitment tree mirrors the ledger",
  "After any sequence of updates, every vertex stored for the tree holds the exact sums of the ledger below each of its children and their total, its value commitment opens to exactly those numbers and its own fresh nonzero blinding factor, "
  "and its digest commitment opens to the digests of exactly its current children.",
  ["histories", "configurations"], "all histories of updates, for every fanout and tree shape",
  "The tests never look into a vertex; only end-to-end proofs for a tree that was filled once are checked.",
  ["verkle/tree.go", "pp/pointproofs.go", "sparse/tree.go"], [("updateInnerLayer / updateLayerAboveLeaves", "verkle/tree.go"), ("pp.Update, pp.Commit", "pp/pointproofs.go")],
  "model_checking", "explicit enumeration of update histories; invariant over every stored vertex recomputed independently from a reference ledger",
  TOY + "Sums stay below 2^63 as the code documents.",
  [("Vertex", "values, digests, sum, blinding factor, V, W", "verkle/tree.go")], ["verkle.Tree.Get"]),

P("C03", "Every liability can be proved to its client",
  "For every set of liabilities and every id in it, the provider can produce a proof stating exactly the recorded amount, and the verifier accepts that proof for that id against the currently published root. For an id that was never set no proof is produced.",
  ["histories", "inputs", "configurations"], "all ledgers and histories leading to them, all ids and positions, amounts in [0, 2^63), both tree kinds and all fanouts",
  "The tests prove two random ids after single insertions with fanout 7; updates, other slots, shared paths, edge amounts and other fanouts are never proved.",
  ["pol/pol.go", "verkle/tree.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"], [("ProveLiability", "pol/pol.go"), ("LiabilityProof.Verify", "pol/pol.go")],
  "model_checking", "explicit enumeration of histories and positions; prove and verify on the real code in every resulting state",
  TOY, [], ["ProveLiability", "LiabilityProof.Verify"]),

P("C04", "The total proof shows the exact sum and nothing else",
  "The total proof states the exact sum of all current liabilities and is accepted against the current root. No other sum (including negative ones), altered proof element, earlier or later root, or opening of something else is accepted as the total.",
  ["histories", "inputs"], "all ledgers and histories leading to them, all claimed sums",
  "The test checks one total of two liabilities and never a wrong claim.",
  ["pol/pol.go", "pp/pointproofs.go"], [("ProveTot", "pol/pol.go"), ("TotalProof.Verify", "pol/pol.go")],
  "model_checking", "explicit enumeration of histories and of a family of wrong claims in every state",
  TOY + "Wrong claims are a finite family of about 150 per ledger.", [], ["ProveTot", "TotalProof.Verify"]),

P("C05", "The published root is always the current one",
  "Whatever reads and proofs happened before, the published root commits to the ledger as it stands: proofs and totals made now verify under it, and a proof made for a different earlier ledger does not. Roots and proofs handed out earlier keep verifying together.",
  ["histories"], "all interleavings of updates, root reads, proofs and totals",
  "The tests read the root once at the end; caching and staleness need reads between updates.",
  ["pol/pol.go", "verkle/tree.go"], [("DBMemorizeRoot", "pol/pol.go"), ("LiabilitySet.Root", "pol/pol.go")],
  "model_checking", "explicit enumeration of all interleavings of writes and reads up to a length",
  TOY, [("DBMemorizeRoot.root", "memoized root vertex", "pol/pol.go")], ["LiabilitySet.Root", "ProveTot", "ProveLiability"]),

P("C06", "A proof is bound to its statement and to every component",
  "A liability proof is accepted only for the id, amount, root and public parameters it was made for. Altering any component that the proof consists of, alone or together with another one, or replacing it by the component of another proof, makes verification fail.",
  ["inputs"], "all components and alterations, all other statements",
  "No test ever presents a verifier with a bad proof.",
  ["pol/pol.go", "bp/range.go", "bp/innerprod.go", "bp/ir.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"], [("LiabilityProof.Verify and the argument verifiers", "pol/pol.go")],
  "model_checking", "exhaustive single and pairwise mutation of every component of honest proofs, exhaustive wrong statements",
  TOY + "Alterations are a fixed family per component; computational soundness beyond that family is the subject of C07 and C10-C14.", [], ["LiabilityProof.Verify"]),

P("C07", "A dishonest provider cannot hide or shrink a liability",
  "If along the path of a client some parent books another amount than its child's total, some vertex's total is not the sum of its children, some amount is negative or too large, some digest does not belong to the child shown, or the chain has more or fewer layers than the path, "
  "then the verifier rejects, however the proof is completed from the provider's side.",
  ["inputs", "configurations"], "all inconsistent commitment chains and all ways to complete them with the library's provers",
  "No test builds an inconsistent tree.",
  ["pol/pol.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"], [("LiabilityProof.Verify", "pol/pol.go"), ("checkCommitmentToInnerVertex / LeafVertex", "pol/pol.go")],
  "model_checking", "exhaustive enumeration of rule violations (and offsetting pairs) of a dishonest provider at every layer, verified by the real verifier",
  TOY + "The cheating prover runs the library's own algorithms on inconsistent data.", [], ["LiabilityProof.Verify"]),

P("C08", "Malformed proofs are rejected, not fatal",
  "A proof whose vectors have any other length than the tree demands is rejected with an error: it is neither accepted nor able to crash or hang the verifier, sequentially or in parallel.",
  ["inputs"], "all vectors inside a proof and all wrong lengths",
  "No test presents a malformed proof.",
  ["pol/pol.go", "bp/innerprod.go", "bp/ir.go", "bp/range.go", "sum/sa.go", "poe/poe.go"], [("length checks in the verifiers", "pol/pol.go")],
  "model_checking", "exhaustive structural mutation (length changes of every vector and of pairs of vectors) of honest proofs",
  TOY + "Nil components are outside of the property: there is no decoder that yields one.", [], ["LiabilityProof.Verify", "VerifyRange", "Proof.Verify", "Equalities.Verify"]),

P("C09", "Ids map one-to-one to paths of fixed length",
  "For every supported fanout, each valid id maps to a path of exactly the advertised length whose entries are valid child slots, the same every time; different 9-digit ids map to different paths, and so do different hexadecimal ids unless one is the hash the other was mapped through. Malformed ids are refused.",
  ["inputs", "configurations"], "all 10^9 decimal ids per fanout, all hexadecimal ids, all malformed strings",
  "The tests map a handful of ids.",
  ["sparse/tree.go"], [("DigitPath, DigitPathLen, HexId2PathForFanOut", "sparse/tree.go")],
  "exploration", "exhaustive enumeration of id spaces (boundary blocks and residue classes quick; all 10^9 ids thorough) against an inverse map",
  "Executes the real functions; injectivity is decided by inverting the path. Hexadecimal ids are enumerated around the boundaries of the space, where the inverse decides injectivity among ids that need no rehashing.", [], ["DigitPath", "HexId2PathForFanOut"]),

P("C10", "Vector commitments open correctly and only to what they hold",
  "Every entry of a committed vector opens with an accepted proof, individually and aggregated over several commitments; openings to another value, index, commitment or proof are rejected; updating a commitment in place equals committing to the updated vector.",
  ["inputs", "histories", "configurations"], "all vector sizes, indices, values, subsets of commitments and update sequences",
  "The tests use one size and one or two indices and no negative case.",
  ["pp/pointproofs.go"], [("Commit, Open, Verify, Update, Aggregate, VerifyAggregation", "pp/pointproofs.go")],
  "model_checking", "exhaustive enumeration of small sizes, indices, values and update sequences with algebraic cheating openings",
  TOY, [], ["pp.Verify", "pp.VerifyAggregation"]),

P("C11", "Inner product arguments are complete and sound",
  "A proof that two committed vectors have a stated inner product is accepted for every pair of vectors of supported length; a proof for any other product or commitment is rejected, even when the prover is free to choose every message of the proof.",
  ["inputs", "configurations"], "all vectors and lengths, all claimed products and commitments, adaptive provers that solve for any message",
  "The test proves one random pair of vectors.",
  ["bp/innerprod.go"], [("InnerProdArgument.Prove, InnerProductProof.Verify", "bp/innerprod.go")],
  "model_checking", "exhaustive enumeration of lengths and small vectors, and of adaptive cheating strategies computed in the transparent group",
  TOY, [], ["InnerProductProof.Verify"]),

P("C12", "Range proofs accept exactly the vectors in range",
  "For every vector with entries in [0, 2^63) the range proof is accepted for its commitment; it is rejected for a commitment to any other vector, in particular one with a negative or larger entry at any position, even when the prover deviates from the protocol by committing to non-binary digits or inconsistent digit vectors.",
  ["inputs", "configurations"], "all vectors and positions, deviating provers",
  "The test proves one vector of small numbers.",
  ["bp/range.go", "bp/ir.go", "bp/innerprod.go"], [("ProveRange, VerifyRange, IterativeReduce, IterativeVerify", "bp/range.go")],
  "model_checking", "exhaustive enumeration of boundary amounts at every position and of deviating provers at every digit position",
  TOY, [], ["VerifyRange", "IterativeVerify"]),

P("C13", "Sum arguments accept exactly vectors that sum up",
  "A sum argument is accepted for commitments to vectors whose last entry is the sum of the others, alone or aggregated over any number of commitments, and rejected for any other commitments, including ones whose errors cancel out across vectors.",
  ["inputs", "configurations"], "all vectors and sizes, all positions and amounts of the error, all numbers of aggregated vectors",
  "The tests prove one vector and one aggregate and no wrong one.",
  ["sum/sa.go", "bp/innerprod.go"], [("NewArgument, NewAggregatedArgument, Verify, VerifyAggregated", "sum/sa.go")],
  "model_checking", "exhaustive enumeration of sizes, error positions, offsetting errors and cheating provers",
  TOY, [], ["Proof.Verify", "Proof.VerifyAggregated"]),

P("C14", "Equality proofs accept exactly equal entries",
  "An equality proof, single or aggregated, is accepted when the designated entries of the two committed vectors are equal, for all pairs of indices, and rejected when they differ in any pair, including differences that cancel out across pairs.",
  ["inputs", "configurations"], "all index pairs, values, sizes and numbers of pairs",
  "The tests prove one pair and one batch of equal entries.",
  ["poe/poe.go", "pp/pointproofs.go"], [("Equality.Prove/Verify, Equalities.Prove/Verify", "poe/poe.go")],
  "model_checking", "exhaustive enumeration of index pairs and error patterns with cheating provers",
  TOY, [], ["Equality.Verify", "Equalities.Verify"]),

P("C15", "Proving and verifying give the same result under every schedule",
  "With parallelism enabled, a proof produced under any interleaving is accepted, a bad proof is rejected under any interleaving, several proofs can be made and verified at the same time, and verification returns only a final verdict; no interleaving deadlocks, crashes or races.",
  ["schedules"], "all interleavings of the goroutines started by proving and verifying, and of concurrent verifications of the same and of different proofs",
  "The tests run whatever schedule the runtime happens to pick, and never a failing range proof.",
  ["pol/pol.go", "bp/range.go"], [("goroutines, wait group, lock and atomic error in ProveLiability and Verify", "pol/pol.go")],
  "model_checking", "stateless preemption-bounded exploration of all interleavings of the real code under a controlled scheduler, plus a free-running race detector pass",
  TOY + "Scheduling points are synchronisation operations, goroutine starts and statements on variables or objects that goroutines share; unsynchronised accesses between them are left to the race detector pass.", [], ["ProveLiability", "LiabilityProof.Verify"]),

P("C16", "Verifying and proving change nothing",
  "Verification gives the same verdict whenever and however often it is repeated and in whatever order, and changes neither the proof, the root, the id nor the public parameters; proving changes neither the liability set, the database, the public parameters nor proofs handed out before.",
  ["histories"], "all orders and repetitions of verifying and proving",
  "The tests verify each proof once.",
  ["pol/pol.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "common/math.go"], [("verifiers work on copies", "bp/range.go")],
  "model_checking", "exhaustive enumeration of orders of prove and verify calls, with fingerprints of all inputs before and after",
  TOY, [], ["all provers and verifiers"]),

P("C17", "Stored and exported vertices lose nothing",
  "A vertex written to the database and read back has the same values, digests, sum, blinding factor and commitments, and the exported dump of the tree contains exactly one entry per vertex with the content that is stored for it, for every ledger including the empty one.",
  ["inputs", "histories"], "all vertices and all trees",
  "The serialization test only calls the function and looks at no byte.",
  ["verkle/tree.go", "sparse/tree.go"], [("Vertex.Bytes / FromBytes, Tree.Serialize", "verkle/tree.go")],
  "model_checking", "exhaustive enumeration of trees and of vertex contents, decoded independently",
  TOY, [], ["Vertex.Bytes", "Vertex.FromBytes", "Tree.Serialize"]),

P("C18", "An interrupted update can be retried",
  "If the database fails at any point of an update, repeating the update leads to exactly the tree that an undisturbed history would have produced: all reads, proofs, totals and the root are those of the ledger. (What is read between the failure and the repetition is unspecified.)",
  ["fault_sequences", "crash_points"], "every database operation of an update as the point of failure, before or after taking effect (a read that fails may also find nothing), in every history",
  "The tests use a map that never fails.",
  ["verkle/tree.go", "sparse/tree.go", "pol/pol.go"], [("bottom-up update with database writes", "verkle/tree.go")],
  "fault_enumeration", "exhaustive enumeration of failure points over update histories; full tree invariant after the retry",
  TOY + "A failure is a panic of the database or a read that finds nothing, the only ways its interface can report one.", [], ["Set after a failed Set"]),

P("C19", "Every challenge depends on the whole statement and all earlier messages",
  "In the inner product, range, iterated reduction, sum and equality arguments, the challenges that follow a message in the order of the protocol change whenever that message or the commitments the argument is about change; so no message of an accepted proof can be chosen after the challenge that was meant to follow it.",
  ["inputs"], "all messages and commitments of the interactive arguments",
  "Honest proofs verify whatever the challenges are derived from.",
  ["bp/innerprod.go", "bp/range.go", "bp/ir.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"], [("Fiat-Shamir hashes", "bp/range.go")],
  "model_checking", "exhaustive dependency analysis by changing each message and observing all challenges through the scalar seam of the transparent group",
  TOY, [], ["challenges derived by the verifiers"]),

P("C20", "Vector and field helpers compute what they are named after",
  "The vector, bit, power, hashing and pairing-product helpers return the exact results of modular arithmetic for all inputs and never modify their operands; computed sums and products of group elements can be overwritten without changing an operand or a later result.",
  ["inputs"], "all small lengths and all boundary scalars and points",
  "One helper has a test with one vector.",
  ["common/math.go"], [("Vec, G1v, G2v methods, Bits, PowerSeries, FieldElementFromBytes", "common/math.go")],
  "exploration", "exhaustive enumeration of short vectors over a boundary alphabet against big-integer arithmetic",
  TOY, [], ["package common"]),

P("C21", "Public parameters are well formed",
  "For every fanout and tree kind, generated parameters are consistent with each other, form a power series of one secret that lacks exactly the forbidden power, consist of pairwise distinct nonzero generators without known relations across roles, have the sizes the tree needs, and come from a new secret for each setup; the digests of the parameters cover the elements they stand for.",
  ["configurations"], "all supported fanouts and both tree kinds",
  "The tests use one or two fanouts and never look at the parameters.",
  ["pol/pol.go", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "bp/range.go", "common/math.go"], [("GeneratePublicParams and the constructors it calls", "pol/pol.go")],
  "exploration", "exhaustive enumeration of configurations; the discrete logarithms visible in the transparent group decide each relation",
  TOY, [], ["GeneratePublicParams"]),

P("C22", "The tree tells its owner about every change, bottom up",
  "Each insertion recomputes exactly the vertices on the path of the id from the leaf layer to the root, each once, giving the current data of all its children and the slot that changed, and stores what it is given; lookups return the data last stored, whatever it is.",
  ["histories", "configurations"], "all histories of insertions and all fanouts",
  "The tests compare a few hand-made insertions.",
  ["sparse/tree.go"], [("Tree.Put with the UpdateInnerVertex callback", "sparse/tree.go")],
  "model_checking", "exhaustive enumeration of insertion histories with a recording callback against a reference tree",
  "Executes the real code on all histories within the bounds.", [], ["sparse.Tree"]),

P("C23", "Proofs and commitments are masked by fresh randomness",
  "Every commitment and every proof uses its own fresh randomness: each vertex has its own nonzero blinding factor; no mask of a prover is reused, constant or left out; and two proofs of the same statement share none of their randomized messages, so equal amounts in different accounts cannot be recognised.",
  ["histories", "inputs"], "all histories and all provers, every random draw",
  "Tests only look at acceptance, which does not need randomness at all.",
  ["bp/range.go", "sum/sa.go", "poe/poe.go", "verkle/tree.go", "common/math.go"], [("random masks in the provers", "bp/range.go")],
  "model_checking", "exhaustive perturbation of every random draw and of hidden witness entries; linear-algebra masking test over the transparent group",
  TOY, [], ["ProveRange", "NewArgument", "Equalities.Prove", "Equality.Prove", "vertex creation"]),
]

CLAIMED = os.environ.get("CLAIM")
claimed = set(CLAIMED.split(",")) if CLAIMED else set(l.strip() for l in open(os.path.join(V, "tools", "claimed")) if l.strip())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="./setup",
           checks=[dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"])
                   for p in PROPS if p["id"] in claimed],
           not_applicable=[dict(property=p["id"], reason=p["na"] or "no check has been built for it yet") for p in PROPS if p["id"] not in claimed],
           notes="Checks run the real packages of /repo; no hooks in /repo are needed. DESIGN.md describes the machinery.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
