#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (edit here, not there)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, note=note, tech=tech))

TECH = "deterministic simulation with seeded fault injection"

prop("S01", "Committed storage transactions survive crashes whole, in commit order",
  "After any crash, power loss, disk error or restart of a process using the on-disk storage, the storage reopens and shows exactly the effect of a set of its transactions applied whole and in commit order: nothing torn, nothing reordered, nothing invented. Every transaction whose commit was acknowledged before a plain process crash is in that set; after a power loss the set may only lack a suffix of the most recent commits. A commit that reported an error may be present or absent as a whole, never in part, and an abandoned transaction is never present. A read that fails says so, and neither hides nor invents anything.",
  ["schedules","crash_points","fault_sequences","histories"],
  "every interleaving of transactions of several tasks over prefixed handles, every crash or power loss point, every sequence of disk errors",
  "the tests commit once and read back in the same process; no test crashes, fails a disk call or reopens after an unclean stop",
  ["db/leveldb.go","db/storage.go","db/storageutils.go"],
  [("atomic write batch per transaction","db/leveldb.go: tx.Commit"),("prefix handles over one database","db/leveldb.go: WithPrefix")],
  ["storage open","get","list","iterate"],
  note="Samples crash points, disk faults and interleavings; the real LevelDB engine runs over a simulated disk. Assumes write-ordered files and background compaction out of reach.")

prop("S02", "Both storage backends behave as one ordered map with isolated transactions",
  "For every sequence of operations, on either backend and at any prefix nesting, reads, listings (order, bounds, early stop) and iterations show exactly the committed contents under that prefix; a transaction sees its own writes and nothing of others before they commit, and a discarded or never committed one leaves no trace. Neither the caller reusing its buffers nor the caller writing into returned values changes what is stored. The two backends and a reopened database give the same answers, and describing a database counts what it holds.",
  ["histories","schedules","configurations"],
  "every interleaving of steps of several open transactions, every nesting of prefixes, either backend, with restarts",
  "the tests run a handful of fixed scripts with one transaction at a time and distinct prefixes",
  ["db/leveldb.go","db/memory.go","db/storage.go","db/storageutils.go","db/kvmap.go","db/utils.go"],
  [("overlay of uncommitted writes","db/leveldb.go, db/memory.go: tx.Get/Put/Commit"),("prefix concatenation","db/utils.go"),("list and counter helpers","db/storageutils.go")],
  ["get","put","list","iterate","commit"],
  note="Seeded search over operation interleavings against an ordered-map model, with error and restart faults on the LevelDB backend.")

prop("S03", "Concurrent users of one storage see atomic commits",
  "When several goroutines share one storage, every committed multi-key transaction takes effect at one instant between its call and its return: no reader ever sees part of it, an older value after a newer one, or a value nobody committed. No interleaving crashes, deadlocks or touches shared memory unprotected.",
  ["schedules"],
  "every interleaving of concurrent commits, reads and listings on either backend",
  "the tests use storages from one goroutine only",
  ["db/memory.go","db/leveldb.go"],
  [("locking of the memory store","db/memory.go"),("engine batch","db/leveldb.go: Commit")],
  ["get","list","commit"],
  note="Seeded preemption at every statement of the repository; unprotected concurrent map access is detected deterministically.")

prop("M01", "A merkle tree is exactly the map of its accepted entries, also under faults",
  "A tree holds exactly the entries whose addition it acknowledged: each can be read and proven at the current root, duplicates are refused, absence is provable for every other index, and the root depends only on the set of entries, not on order, storage or restarts. An addition that fails, for bad input, a storage error or a crash, leaves the tree as it was, and the same addition can succeed later. Every earlier root stays readable and provable.",
  ["histories","fault_sequences","crash_points","inputs"],
  "every sequence of additions, queries, snapshots and reopenings, with any storage call failing and any crash point",
  "the tests add fixed entries to a memory store that never fails and never restarts",
  ["merkletree/merkletree.go","merkletree/node.go","merkletree/utils.go"],
  [("addition in one transaction","merkletree/merkletree.go: AddEntry"),("root record","merkletree/merkletree.go: NewMerkleTree, dbInsert"),("proof generation","merkletree/merkletree.go: GenerateProof")],
  ["add","get","root","proof","snapshot","walk"],
  note="Compared with an independent model of the tree; storage faults, crashes and power losses sampled.")

prop("M02", "Concurrent users of one merkle tree see additions one at a time",
  "When several goroutines add to and read one tree, the outcome is that of some one-at-a-time order of the additions consistent with real time: exactly one of two competing additions wins, no acknowledged entry disappears, every root, proof, snapshot or dump corresponds to a set of entries the tree held during the call. No interleaving deadlocks or crashes.",
  ["schedules","fault_sequences"],
  "every interleaving of concurrent additions, lookups, proofs, walks and dumps, with failing storage calls and crashes",
  "the tests use a tree from one goroutine",
  ["merkletree/merkletree.go"],
  [("tree lock","merkletree/merkletree.go: MerkleTree.Lock")],
  ["add","root","get","proof","dump"],
  note="Histories under seeded preemption at every statement are checked against chains of sets of entries.")

prop("M03", "Moving a tree between nodes yields the complete version or an error",
  "Dumping any version of a tree and importing it elsewhere either reports an error or gives a target whose named root is that version with every entry readable, provable and still there after a restart. A writer, reader or storage that fails, delivers piecemeal or stops early never leads to a reported success with something missing, nor damages what the target held before.",
  ["fault_sequences","crash_points","histories"],
  "every point at which the stream or storage fails, is cut or crashes, any version of the source, empty or non-empty targets",
  "the tests transfer through an in-memory buffer that never fails",
  ["merkletree/merkletree.go","merkletree/utils.go"],
  [("dump and import of nodes with a root record","merkletree/merkletree.go: DumpTree, ImportTree"),("claims dump","merkletree/merkletree.go: DumpClaims, ImportDumpedClaims")],
  ["dump","import","root","get"],
  note="Streams and storages fail at seeded points; the importer is not expected to detect altered bytes.")

prop("M04", "Tree proofs that travelled a faulty channel convince nobody of a falsehood",
  "Whatever happened to a serialised membership or absence proof on its way (bits flipped, cut, padded, spliced, delivered late or for another statement), the receiver never crashes, never accepts it for a statement that the named root does not satisfy, and always accepts it undamaged for its own.",
  ["inputs","fault_sequences"],
  "every damage to the encoded proof in transit, every version and index it may be checked against",
  "the tests verify untouched proofs",
  ["merkletree/merkletree.go","merkletree/utils.go"],
  [("decoding of proofs","merkletree/utils.go: NewProofFromBytes"),("recomputation of the root","merkletree/utils.go: VerifyProof")],
  ["decode proof","verify proof"],
  note="Channel damage is sampled, biased to header, bitmap and auxiliary node fields.")

prop("N01", "A challenge nonce is accepted at most once and only within its lifetime",
  "Whatever the interleaving of goroutines and however time passes, a nonce is consumable exactly once between its creation and its expiry and never afterwards, an unexpired unconsumed one is never lost, and data attached to it is returned unchanged. Removing or sweeping one nonce never affects another.",
  ["schedules","histories"],
  "every interleaving of additions, lookups, consumptions and sweeps with the clock passing at any point, jumping forward or back",
  "the tests use one goroutine and sleep for fixed times",
  ["utils/noncedb/nonce_db.go"],
  [("locked map plus expiry heap","utils/noncedb/nonce_db.go")],
  ["add","search","search and delete","delete old"],
  note="Clock, entropy and scheduling simulated; runs with backward clock jumps are judged by what the clock showed.")

prop("K01", "An acknowledged key is never lost from the key store file",
  "Once creating or importing a key was acknowledged, every later opening of the key store, after any crash, power loss, full or failing disk, succeeds and holds that key, unlockable with its passphrase and no other. An addition that failed does not show up as a key that is then gone, and never damages the others.",
  ["crash_points","fault_sequences","histories"],
  "every crash or power loss point and disk error sequence during key additions, closings and reopenings",
  "the tests write to a healthy disk and reopen cleanly",
  ["keystore/keystore.go"],
  [("replacement of the file","keystore/keystore.go: writeBytes"),("encryption of stored keys","keystore/keystore.go: encryptKey")],
  ["open","new key","keys","unlock"],
  note="Crash model: torn unsynced writes, ordered namespace operations.")

prop("K02", "At most one process at a time holds a key store file",
  "At no instant do two processes, or two key stores within a process, hold the same key store file open, whatever crashes, closes, failed openings or garbage collections happen, and a closed key store adds no key, so none overwrites keys another one acknowledged. When nothing live holds it, it can be opened.",
  ["schedules","crash_points"],
  "every interleaving of open, close, use (also after closing), forgetting, crash and finalisation of several processes on one file",
  "the tests open the file twice in one process in one fixed order",
  ["keystore/keystore.go"],
  [("lock file","keystore/keystore.go: NewFileStorage, Lock, Unlock"),("finaliser","keystore/keystore.go: NewKeyStore")],
  ["open","close","new key"],
  note="Locks belong to simulated inodes and processes.")

prop("K03", "Signatures come only from unlocked keys and verify for exactly what was signed",
  "A key signs only after it was unlocked with its own passphrase and before the store is closed; each signature verifies under that public key for exactly the given content, prefix and date and no other, and signing never alters the caller's data. Stored keys altered on disk are refused rather than used, and this holds under concurrent use.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of unlock, sign, export and close, with damage to the stored file between openings",
  "the tests unlock and sign once in a fixed order",
  ["keystore/keystore.go"],
  [("cache of unlocked keys under a lock","keystore/keystore.go: UnlockKey, SignElem"),("authenticated encryption","keystore/keystore.go: decryptKey")],
  ["unlock","sign","verify","close"],
  note="Seeded schedules, passphrases and file damage.")

exec(open(os.path.join(V, "tools", "props2.py")).read())

def na(id, title, statement, over, text, why, files, mech, observe, reason):
    NA.append((id, reason))
    prop(id, title, statement, over, text, why, files, mech, observe)

exec(open(os.path.join(V, "tools", "na.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
nas = {i for i, _ in NA}
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["tech"] or TECH, level="exploration", level_note=p["note"]) for p in P if p["id"] not in nas],
    not_applicable=[dict(property=i, reason=r) for i, r in NA],
    notes="No hooks in /repo: the seams are put in at build time by rewriting a copy of its sources (go build -overlay), see DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
