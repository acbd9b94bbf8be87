prop("O01", "The publisher keeps the last publications retrievable and intact",
  "Asking the off-chain publisher for the last published state answers with the latest acknowledged publication; asking for a given state answers with the data published for it, for every state among the most recent ones that the configured cache length covers, and otherwise says it was not found. Every answer is one whole publication whose trees make up its state, however long the publisher has run, whatever its cache length, under concurrent publishing and asking, storage errors, crashes and restarts.",
  ["histories","schedules","fault_sequences","crash_points","configurations"],
  "every sequence of publications and questions for any cache length, every interleaving, every storage error and crash point",
  "the tests publish a few states with the default length in one process",
  ["components/idenpuboffchain/writerhttp/writerhttp.go","components/idenpuboffchain/idenpuboffchain.go"],
  [("ring of cached publications","components/idenpuboffchain/writerhttp/writerhttp.go: nextCacheIdx, prevCacheIdx"),("one transaction per publication","components/idenpuboffchain/writerhttp/writerhttp.go: Publish")],
  ["publish","get public data"],
  state=[("cacheIdx","the slot of the next publication","components/idenpuboffchain/writerhttp/writerhttp.go: dbKeyCacheIdx")],
  note="Cache lengths 1-13 and 130-255; a power loss may drop the latest publications.")

prop("O02", "A reader gets exactly the published data of the state asked for, or an error",
  "Fetching the published data of an identity over an unreliable network from an untrusted server returns an error or data in which every node, leaf and root is exactly what the returned state commits to; when a particular state was asked for, it is that state. Damaged, truncated, stale, spliced or invented replies never crash the reader nor pass as published data, and fetching succeeds again once the faults stop.",
  ["inputs","fault_sequences","schedules"],
  "every damage to or replacement of a reply, every loss, duplication, delay and truncation, while the server publishes further states",
  "the tests convert intact data in memory",
  ["components/idenpuboffchain/readerhttp/readerhttp.go","components/idenpuboffchain/idenpuboffchain.go","components/httpclient/httpclient.go","merkletree/merkletree.go"],
  [("check of the published trees against the state","components/idenpuboffchain/idenpuboffchain.go: NewPublicDataFromBlobs"),("HTTP reader","components/idenpuboffchain/readerhttp/readerhttp.go: GetPublicData")],
  ["fetch"],
  note="The server and network are simulated; the publisher behind the server and the client code are real.")

prop("Z01", "Circuit files handed out have the configured hashes; downloading recovers",
  "Whatever a set of circuit files hands out or reports as downloaded (proving key, verification key, witness calculator) is exactly the file with the configured hash, whoever serves it and however many processes and tasks download into the same folder; no file that was checked changes afterwards, and files without a matching hash are refused. Nothing fails without a fault, an interrupted, damaged or tampered download never stands in the way of a later one, and once the faults stop every file becomes available without manual cleaning.",
  ["schedules","fault_sequences","crash_points","inputs"],
  "every interleaving of downloaders sharing a folder, every damage to a reply, every disk or network error, crash and power loss during a download",
  "the tests download nothing over an unreliable network and never share a folder",
  ["utils/zk/zk.go"],
  [("download into a temporary file under a lock","utils/zk/zk.go: download"),("hash check","utils/zk/zk.go: checkHash, downloadCheckFile"),("loading and caching","utils/zk/zk.go: ProvingKey, VerificationKey, WitnessCalcWASM")],
  ["download","load","get keys"],
  note="Toy circuits with real key files; the server, network and disk are simulated. Assumes nobody else writes into the folder; a hanging server is out of scope.")

IS = "identity/issuer/issuer.go"
prop("I01", "An identity keeps every acknowledged claim and revocation, and itself",
  "The claims, revocations and published roots of an identity are exactly those whose operation was acknowledged: each stays through later operations, failing storage, process crashes at any point and restarts, with its content as given; an operation that failed left nothing, one cut off by a crash happened whole or not at all, and a power loss at most takes back the latest ones. The identifier, operational key and proof of ownership never change, an identity is created whole or not at all, a crash never makes it unloadable, and without a fault nothing new is refused.",
  ["histories","crash_points","fault_sequences","inputs"],
  "every sequence of issuing, revoking, publishing, synchronising and restarting, with every storage operation failing and a crash or power loss at any statement, also during creation",
  "the tests issue a few claims in one process over a memory storage and need a live network to run at all",
  [IS,"identity/issuer/noncegen.go","core/claims/claim.go","core/claims/utils.go","core/genesis/genesis.go","merkletree/merkletree.go"],
  [("claims, revocations and roots trees",IS+": IssueClaim, RevokeClaim, PublishState"),("creation in one transaction",IS+": Create"),("loading",IS+": Load")],
  ["issuer state and roots","load","ownership inputs"],
  state=[("claimsTree, revocationsTree, rootsTree","what the identity asserts",IS+": Issuer"),("id, kop, genclr","identity and proof of ownership",IS+": dbKeyId, dbKeyKOp, dbKeyGenesisClaimTreeRoot")],
  note="Compared with an independent model of the three trees. Runs that lose power do not publish: commits are not synced, and taking back a publication is out of scope.")

prop("I02", "Revocation nonces are unique and a failed issue leaves the claim as it was",
  "No two claims of an identity, genesis ones included, ever share a revocation nonce, whatever nonce a claim came with and whatever failed, crashed, restarted or was repeated before. Issuing a claim changes nothing of it but its revocation nonce, which is the one in the claims tree; an issue that fails (repeated index, storage error) leaves the claim's metadata as it was, so that a claim issued earlier still carries its own nonce. A claim with the index of an issued one is refused.",
  ["histories","fault_sequences","crash_points"],
  "every sequence of issues of new, repeated and colliding claims, each failing or cut off at any storage operation",
  "the tests issue distinct claims without failures",
  [IS,"identity/issuer/noncegen.go","core/claims/claim.go"],
  [("persistent nonce counter","identity/issuer: UniqueNonceGen.Next"),("nonce committed before the claim",IS+": IssueClaim")],
  ["issue","claim metadata"],
  state=[("nonceidx","next nonce",IS+": dbKeyNonceIdx")])

prop("I03", "Only recorded states with valid proofs reach the chain, one at a time",
  "Whatever an identity sends to the chain is a state it has durably recorded, with a valid proof of the step from its last state on chain, introduced once and then updated, never a second one while one is pending. If its claims differ from those of the genesis state, the roots tree of the state sent holds the root of its claims. The state it takes for the one on chain, with block number and time, is in the chain. A credential of existence is given exactly for the claims contained in that state, verifies against the chain and names the claim, identity and address asked for. All this under failing or lagging chain connections, lost requests and answers, failed transactions, storage errors and crashes.",
  ["histories","fault_sequences","crash_points"],
  "every sequence of issuing, publishing, synchronising and asking for credentials with any chain or storage call failing or a crash at any point",
  "the tests use a mock chain that always answers as expected",
  [IS,"components/idenpubonchain/idenpubonchain.go","core/proof/proof.go","components/verifier/verifier.go"],
  [("pending state graph (A)(B)(C)",IS+": PublishState, SyncIdenStatePublic"),("list of recorded states",IS+": idenStateList"),("credential generation",IS+": GenCredentialExistence")],
  ["transaction sent","state on chain","credential"],
  state=[("idenstatepending, idenstatependingtxed","publication in progress",IS+": dbKeyIdenStatePending"),("idenstatedataonchain","state taken for the one on chain",IS+": dbKeyIdenStateDataOnChain")],
  note="Chain and contract are a model implementing IdenPubOnChainer; proofs are real Groth16 proofs of a toy circuit checked by the real verifier. Transactions of an account are mined in order and not dropped; no power loss.")

prop("I04", "Publishing recovers: the current state gets on chain with its public data",
  "Publishing and synchronising never fail without a fault, and however storage errors, crashes, lost or failed transactions and lagging replicas interrupted earlier attempts, once the faults stop a bounded number of calls brings the identity's current state on chain and makes it the reported one. At every moment the public data of the state on chain can be fetched from the identity's publisher.",
  ["fault_sequences","crash_points","histories"],
  "every point at which a publication can be cut off or fail, any number of times in a row",
  "the tests publish without interruption",
  [IS,"components/idenpuboffchain/writerhttp/writerhttp.go","components/idenpubonchain/idenpubonchain.go"],
  [("continuation of a pending publication",IS+": PublishState (B)"),("handling of failed transactions",IS+": SyncIdenStatePublic")],
  ["publish","sync","public data"],
  note="Bound: eight rounds of publish, mine, synchronise. Dropped transactions are out of scope; no power loss.")

prop("I05", "A state is final only after the required confirmations, and stays on chain",
  "A published state is taken for the one on chain only when at least the configured number of blocks follow the one that contains it, whatever the chain connection does (lost answers, failing transactions, lagging replicas), across crashes and reloads; so, as long as no reorganisation is deeper than that number, a state once taken as final stays in the chain. A state on chain that is neither that one nor the pending one is reported as an error and changes nothing.",
  ["schedules","fault_sequences","histories"],
  "every sequence of blocks, reorganisations up to the required depth, lost answers, restarts and synchronisations",
  "the tests use a chain without reorganisations or lost answers",
  [IS,"components/idenpubonchain/idenpubonchain.go"],
  [("confirmation count before adoption",IS+": SyncIdenStatePublic, TxConfirmBlocks")],
  ["state on chain reported"])

prop("I06", "A genesis only identity refuses every change",
  "Issuing, revoking, updating, publishing, synchronising and giving credentials on an identity created as genesis only fail with the error for it, whatever the storage does, and change neither the claims handed in nor roots, identifier, key or ownership inputs; nothing is ever sent to a chain, also after crashes and restarts.",
  ["histories","fault_sequences","crash_points"],
  "every sequence of calls with storage faults, crashes and reloads",
  "the tests check two calls once",
  [IS],
  [("GenesisOnly checks",IS+": ErrIdenGenesisOnly")],
  ["any changing call"])

prop("I07", "One identity can be used by several goroutines at once",
  "When goroutines issue, revoke, publish, synchronise and query one identity at the same time, the outcome is that of one operation at a time in an order consistent with real time: every reported state is that of one moment, of competing claims with one index exactly one is issued, revocation nonces stay unique, nothing acknowledged disappears, what is published is one of those states, with a valid proof and its public data, one after the other, and the pending and on-chain states reported are never half updated or older than before. No interleaving deadlocks or crashes.",
  ["schedules","fault_sequences"],
  "every interleaving of concurrent operations on one identity, with failing storage transactions and blocks being mined",
  "the tests use an issuer from one goroutine",
  [IS,"identity/issuer/noncegen.go","merkletree/merkletree.go"],
  [("issuer lock",IS+": Issuer.rw"),("nonce lock","identity/issuer/noncegen.go: Next")],
  ["state","issue","revoke","publish","sync","credential"],
  note="Seeded preemption at every statement of the repository.")

VF="components/verifier/verifier.go"
HO="identity/holder/holder.go"
prop("V01", "A verifier accepts exactly the credentials that the chain bears out",
  "A credential of existence is accepted only if its issuer's state in the block it names is on chain with that content and the claims tree of that state holds exactly that claim; a credential of validity only if moreover a state of the same issuer that is on chain, and is the last one or younger than the freshness demanded, does not revoke the claim's nonce, and the claim has not expired. What is genuine and meets this is accepted when nothing interferes. Whatever arrives - altered, cut, mixed of several credentials, forged with trees of the sender's own, decoded over an earlier one - nothing panics.",
  ["untrusted_inputs","histories","fault_sequences","schedules"],
  "every alteration, mixture and forgery of credentials, against every history of the chain, with failing chain calls and all parties running at once",
  "the tests verify a few untouched credentials and one altered field",
  [VF,"core/proof/credential.go","core/proof/proof.go",HO,"merkletree/merkletree.go","merkletree/entry.go"],
  [("proof of the claim against the state on chain",VF+": VerifyCredentialExistence"),("state by block",VF+": GetStateByBlock"),("decoding of entries and proofs","merkletree: UnmarshalText, UnmarshalJSON")],
  ["verdict"],
  note="The verdict is compared with the harness's own record of what each issuer's states contain and of the (modelled) chain.")

prop("V02", "Revocation takes effect: no revoked claim passes for valid, holders learn of it",
  "Once a state that revokes a claim is on chain, a holder asking for a credential of validity is told that the claim is revoked, and a verifier accepts a credential of validity based on an older state only as long as that state's block is younger than the freshness demanded. A claim that is not revoked always gets a credential of validity, based on a state at least as new as the last one when it was asked for, and a verifier accepts it; nobody is told of a revocation that did not take place.",
  ["histories","fault_sequences","schedules","clock"],
  "every history of issuing, revoking, publishing, fetching and verifying, with an unreliable publisher network and chain connection and credentials of several ages mixed",
  "the tests revoke one claim and ask once",
  [HO,VF,"components/idenpuboffchain/readerhttp/readerhttp.go","identity/issuer/issuer.go"],
  [("proof of non-revocation from the published tree",HO+": HolderGetCredentialValidity"),("freshness of the state",VF+": VerifyCredentialValidity")],
  ["credential of validity","verdict"])

prop("V03", "Expiry and freshness are judged by the verifier's clock, to the nanosecond",
  "A genuine, unrevoked credential of validity is refused as expired exactly when the verifier's clock is past the claim's expiration, and as too old exactly when its state is not the last one on chain and its block time is not after the clock minus the freshness demanded - for every clock (skewed, jumping, stepping between two readings), every freshness (none, negative, huge) and every expiration.",
  ["clock","histories","schedules"],
  "every position of the clock around every boundary, every freshness and skew",
  "the tests use two clocks far from the boundaries",
  [VF,"core/claims/claim.go"],
  [("injected clock",VF+": NewWithTimeNow"),("expiry and freshness tests",VF+": VerifyCredentialValidity")],
  ["verdict"])

prop("V04", "Zero knowledge credentials prove a state of the issuer that is still good",
  "A zero knowledge proof is accepted only if it is a proof of exactly its public signals, the first of them is the state of the issuer asked about in the block named, and that state is the last one or younger than the freshness demanded; genuine ones are accepted when nothing interferes. The holder makes proofs exactly for claims about it that are on chain and not revoked. Mixed and altered proofs are refused, and nothing panics.",
  ["untrusted_inputs","histories","fault_sequences","schedules"],
  "every mixture and alteration of proofs against every history of issuing, revoking and publishing, with chain faults",
  "the test needs circuit files from the network and does not run offline",
  [VF,HO,"utils/zk/zk.go","core/claims/utils.go"],
  [("verification with the configured key",VF+": VerifyZkProofCredential"),("inputs of the circuit",HO+": HolderGenZkProofCredential")],
  ["proof verdict","proof made"],
  note="Groth16 over a toy circuit with a trapdoor prover; the verifier is the real one. The circuit's own constraints are outside the repository.")

ON="components/idenpubonchain/idenpubonchain.go"
EC="eth/client.go"
prop("C01", "Queries of the chain answer what the contract held, or say so truthfully",
  "Asking the contract for an identity's state - latest, by block, by time, or closest to one - answers state, block and time exactly as the contract held them in the chain at some moment of the call (or up to as far behind as the node lags). That an identity or place is not there is only said when it was not; a failing, slow, hanging or broken node or network yields an error, never a made-up state and never \"not on chain\"; without a fault there is no error. States sent with a valid proof from the contract's last state are in it once mined, others never.",
  ["histories","fault_sequences","schedules","reorganisations"],
  "every history of introductions and updates by several clients with blocks mined and reorganised at any time, every loss, delay, damage, hang and staleness of the node's answers",
  "the tests only check that the type satisfies its interface; no chain is reachable",
  [ON,EC,"eth/contracts/state.go","utils/zk/zk.go"],
  [("queries of the contract",ON+": GetState, GetStateClosestToBlock, GetStateClosestToTime"),("exact block or time",ON+": GetStateByBlock, GetStateByTime")],
  ["state queries"],
  note="The contracts run in go-ethereum's EVM with the toy circuit's verification key patched into the verifier; the node is a model over a simulated network.")

prop("C02", "A state is sent once, as asked; confirmations and receipts are true",
  "Sending a state gives the node at most one transaction per call, calling the contract with exactly the identity, states and proof given, and returns that transaction unless something failed. Confirmations and receipts are those of the chain at some moment of the call: a failed transaction is always told as failed, one that is in no block never as confirmed. Waiting for a receipt returns soon after it is there, not before the limit without it and not long after the limit whatever the node does. Deploying names the address where the contract is.",
  ["histories","fault_sequences","schedules","reorganisations","time"],
  "every interleaving of several senders and waiters with mining and reorganisation, every loss, duplication, delay and hang of requests and answers, every limit",
  "no test reaches a node",
  [EC,ON,"components/idenpubonchain/deploy.go"],
  [("sending",EC+": CallAuth"),("waiting",EC+": waitReceipt"),("confirmations",ON+": TxConfirmBlocks"),("deployment",EC+": Deploy")],
  ["transactions at the node","receipts","confirmations","deployed code"],
  note="Accounts are in go-ethereum's key store; senders sharing an account at once may collide in the nonce, which is taken for a cause of an error.")

prop("C03", "The registry and publisher within a process keep proven chains and intact data",
  "The local registry accepts exactly the introductions and updates with a valid proof from the identity's current state, one waiting at a time, so that each identity's states form one chain of proven steps; accepted states appear with the next synchronisation, with the block and time of the call, stay unchanged whatever the caller does with its memory or tasks do meanwhile, and their transactions count confirmations from that block. The local publisher answers for every published state with exactly the trees of that state, and the latest for none, however the identity's trees go on changing.",
  ["histories","schedules","inputs"],
  "every interleaving of introductions, updates, queries and synchronisations of several identities, with repeated, outdated and forged proofs, and of publishing, changing trees and fetching",
  "the tests only check that the types satisfy their interfaces",
  ["components/idenpubonchain/local/local.go","components/idenpuboffchain/local/local.go"],
  [("pending queue and synchronisation","components/idenpubonchain/local/local.go: Sync, InitState, SetState"),("kept publications","components/idenpuboffchain/local/local.go: Publish")],
  ["state queries","confirmations","public data"])

prop("G01", "A signature is of the message passed, dated truly, whoever signs meanwhile",
  "Signing through an issuer, a signer or an Ethereum account, from any number of goroutines and with messages that share memory: every signature verifies under the key for exactly the bytes, elements, states or message and date passed, and for nothing else; the date returned is that of the call; a locked key refuses and an unlocked one signs; neither signing nor checking changes memory of the caller. A signature or key keeps its value through JSON, and one altered on the way is refused and never causes a crash.",
  ["schedules","inputs"],
  "every interleaving of signers and checkers sharing buffers of every length and spare room, with the clock passing and damage in transit",
  "the tests sign constant messages one after the other",
  ["identity/issuer/issuer.go","components/idensigner/idensigner.go","crypto/signatures.go","crypto/ecdsa_public_key.go","keystore/keystore.go"],
  [("prefixing and hashing","identity/issuer/issuer.go: SignBinary, SignState"),("dating","components/idensigner/idensigner.go: SignEthMsgDate"),("checking","crypto/signatures.go: VerifySigEthMsgDate, VerifySig")],
  ["sign","verify","caller's memory"],
  note="Messages are slices of one constant buffer, so that signatures can be remembered between runs.")
