import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
p("C01","File-backed storage never leaves its root directory",
 "Whatever key or URI a program supplies to put, get, delete or exists, and whatever relative key it supplies to upload, file-backed object storage reads, writes, links, moves, deletes or tests only paths inside its configured root directory. A key that would resolve outside the root is refused before any file is touched, and a key that resolves inside it is never refused. (download and upload also accept an absolute path, and download a path relative to the working directory, which the interface documents as naming a file directly.)",
 ["inputs","configurations"],"every root directory, every key or URI string (relative, absolute, with '..', sharing a prefix with the root, empty, with repeated separators) and every storage operation",
 "Tests try one '../' key against one root; the guarantee quantifies over all strings and all roots, and the interesting keys (siblings sharing the root's name as a prefix) are not sampled.",
 ["mplang/runtime/object_store.py"],[("FileSystemBackend._resolve_key","mplang/runtime/object_store.py"),("FileSystemBackend put/get/delete/exists/download/upload","mplang/runtime/object_store.py")],
 obs=["FileSystemBackend operations and the os/shutil calls they make"])
p("C02","The object store is a faithful map from URI to value",
 "A value stored under a URI is returned by a later read of that URI and is reported as existing, until that URI is deleted or overwritten; deleting it makes it absent. An operation on one URI never changes what any other URI (or another storage scheme) yields, and reading an absent URI is an error rather than some other value. A store never picks an identifier already in use, and text without a scheme always names the persistent store. In the file store, keys that name the same file path are one key, and no stored key is a directory of another.",
 ["inputs","histories"],"every sequence of put/get/delete/exists/resolve operations over any mix of URIs, schemes and values",
 "Unit tests exercise a few fixed URIs in a fixed order; the frame condition (no other key changes) and the routing of arbitrary URI text quantify over all histories and strings.",
 ["mplang/runtime/object_store.py","mplang/backends/store_impl.py"],[("ObjectStore put/get/delete/exists/_parse_uri/resolve_uri","mplang/runtime/object_store.py"),("MemoryBackend","mplang/runtime/object_store.py"),("save/load implementations","mplang/backends/store_impl.py")],
 obs=["ObjectStore public methods"])
p("C03","Serialization round-trips every supported value",
 "Decoding the encoding of any supported value (None, booleans, integers, floats, strings, bytes, arrays, lists, tuples, dictionaries, and registered objects, nested to any depth) yields an equal value of the same type, in the text form, the base64 form and the binary form alike. Encoding never alters the value it is given, and a value of an unsupported type is rejected instead of being silently changed.",
 ["inputs"],"every finite nesting of supported values, including dictionaries whose keys collide with the encoder's own tags",
 "Tests round-trip a sample of shapes; the claim is an induction over arbitrarily nested values and over every tag the encoder itself uses.",
 ["mplang/edsl/serde.py"],[("to_json/from_json","mplang/edsl/serde.py"),("_to_binary_json/_from_binary_json","mplang/edsl/serde.py"),("dumps/loads/dumps_b64/loads_b64","mplang/edsl/serde.py")],
 obs=["serde public functions"])
p("C04","The binary message container is self-delimiting and rejects damage",
 "Unpacking a packed binary message recovers exactly the metadata and every raw segment, in order, with the same bytes. A message that is truncated at any byte, or whose declared lengths do not fit the bytes received, is rejected with an error instead of being decoded to different content.",
 ["inputs","fault_sequences"],"every metadata document, every list of segments (including empty ones), and every truncation or length corruption of the packed bytes",
 "Tests check a few payloads and a couple of truncation points; the property ranges over all segment counts, sizes and cut points.",
 ["mplang/edsl/serde.py"],[("dumps_binary/loads_binary framing","mplang/edsl/serde.py"),("BinaryContext","mplang/edsl/serde.py")],obs=["dumps_binary / loads_binary"])
p("C05","Graph edits keep use-def information exact and names unique",
 "After any sequence of graph edits (adding inputs, adding operations, replacing an operand, erasing an operation, adding outputs) each value's recorded users are exactly the operations that have it as an operand, each result points back to the operation that defines it, and no two values of a graph share a name. A graph output can only be a value of that graph; anything else is refused.",
 ["histories","inputs"],"every sequence of public edits on a graph, with any operand multiplicity",
 "Tests build small graphs and inspect them; the invariant must survive every edit sequence, including an operand used several times by one operation.",
 ["mplang/edsl/graph.py"],[("Operation.__post_init__/replace_input/erase","mplang/edsl/graph.py"),("Graph.add_input/add_op/add_value/add_output","mplang/edsl/graph.py")],
 state=[("Value.uses","operations that use the value","mplang/edsl/graph.py"),("Value.defining_op","operation producing the value","mplang/edsl/graph.py"),("Graph.values","name table","mplang/edsl/graph.py")],obs=["Graph/Operation/Value fields after each edit"])
p("C06","Graphs and program artifacts survive serialization unchanged",
 "Serializing a graph and reading it back gives a graph with the same inputs, operations, operand wiring, attributes, nested regions, result types and outputs, for every graph the library can build. An artifact whose content disagrees with its recorded digest, signature, operation list or party count is refused.",
 ["inputs","programs"],"every graph (any operand sharing, nesting of regions, value naming) and every tampering of an artifact's recorded facts",
 "Tests round-trip freshly traced graphs only; graphs whose names are not in creation order, shared operands and nested regions are an unbounded family.",
 ["mplang/edsl/graph.py","mplang/edsl/program.py","mplang/tool/program.py"],[("Graph.to_json/from_json","mplang/edsl/graph.py"),("CompiledProgram.to_json/from_json, compute_graph_digest","mplang/edsl/program.py"),("_validate_program/_collect_opcodes/_compute_required_world_size","mplang/tool/program.py")],obs=["serde.to_json/from_json of Graph; tool.program.unpack"])
p("C07","Sequential evaluation computes exactly what the graph denotes",
 "Evaluating a graph runs every operation once, in order, passing it exactly the values of its operands, and returns exactly the values of the graph's outputs in order. Releasing intermediate values early never releases one that is still needed, and an operation without an implementation, or one returning the wrong number of results, is an error rather than a wrong answer.",
 ["programs","inputs"],"every graph (any sharing of values, repeated outputs, inputs that are outputs, zero- or multi-result operations) and every assignment of implementations",
 "Tests evaluate a handful of small graphs; early release is decided by counting consumers, and the claim must hold for every sharing pattern.",
 ["mplang/runtime/interpreter.py"],[("Interpreter._evaluate_graph_sync","mplang/runtime/interpreter.py"),("Interpreter._build_value_gc_info","mplang/runtime/interpreter.py"),("Interpreter.evaluate_graph","mplang/runtime/interpreter.py")],state=[("env","value environment","mplang/runtime/interpreter.py"),("remaining-consumer counters","pending uses per value","mplang/runtime/interpreter.py")],obs=["Interpreter.evaluate_graph result and handler call arguments"])
p("C08","Concurrent evaluation runs each operation once, after its inputs",
 "When a graph is evaluated concurrently, each operation starts exactly once and only after all its operands are available, however the worker threads interleave, and the result equals the sequential one. A failing operation makes the whole evaluation fail instead of hanging or returning partial results.",
 ["schedules","programs"],"every interleaving of operation completions, every graph including repeated operands and operations without operands",
 "Tests observe the schedules the machine happens to produce; the claim quantifies over all completion orders.",
 ["mplang/runtime/interpreter.py"],[("Interpreter._evaluate_graph_async","mplang/runtime/interpreter.py")],state=[("pending counts","operands not yet available, per operation","mplang/runtime/interpreter.py"),("remaining_ops","operations not finished","mplang/runtime/interpreter.py")],obs=["handler invocations, result of evaluate_graph"])
p("C09","Communication keys match between ranks and are never reused",
 "Two ranks that execute the same program derive the same key for corresponding messages: the k-th message exchanged with a peer in a context has the same key on both sides. Within a run no two different messages between the same pair of ranks share a key, in the same context or in different (nested or sibling) contexts.",
 ["histories","programs"],"every sequence of key derivations and context spawns, every peer, every suffix",
 "Tests check the first few keys of one context; uniqueness is a statement over all pairs of positions in all histories.",
 ["mplang/backends/simp_worker/comm_context.py"],[("CommContext.key_for_peer/spawn","mplang/backends/simp_worker/comm_context.py")],state=[("per-peer sequence counters","messages so far per peer","mplang/backends/simp_worker/comm_context.py"),("child counter","contexts spawned so far","mplang/backends/simp_worker/comm_context.py")],obs=["keys passed to the communicator"])
p("C10","Collectives deliver the right result and their messages pair up",
 "For every number of participants and every participant's own rank, broadcast gives everyone the root's value, allgather gives everyone all values in participant order, the boolean all-reduces give everyone the and/or/xor of all values, and barrier returns only after everybody entered. Each message one participant sends is received by exactly the participant it is addressed to, under the same key and in an order that cannot deadlock, and non-members are rejected.",
 ["inputs","configurations","schedules"],"every set of participants in every order, every member's rank, every value",
 "Tests run two or three ranks; pairing of sends and receives must hold for any number of ranks and any participant list.",
 ["mplang/backends/simp_worker/collective_algorithms.py","mplang/backends/simp_worker/collectives.py"],[("broadcast/allgather/barrier/allreduce","mplang/backends/simp_worker/collective_algorithms.py"),("resolve_participants, collective entry points","mplang/backends/simp_worker/collectives.py")],obs=["communicator send/recv calls and return values"])
p("C11","Every message is delivered once, to its addressee, unaltered",
 "A message sent to a rank is handed out there exactly once, under the sender and key it was sent with, and equal to what was sent; messages with different senders or keys never replace or satisfy each other, and a second message for an occupied slot is reported rather than overwriting. The receiver decodes what the sender encoded, in the raw, the text and the binary wire form.",
 ["schedules","inputs","histories"],"every interleaving of senders and receivers, every key, sender and value",
 "Tests send a few messages in one order; exactly-once under all interleavings and agreement of the two ends of the wire for all values cannot be sampled.",
 ["mplang/backends/simp_worker/mem.py","mplang/backends/simp_worker/http.py"],[("ThreadCommunicator send/recv/_on_receive","mplang/backends/simp_worker/mem.py"),("HttpCommunicator send/recv/on_receive, comm route","mplang/backends/simp_worker/http.py")],state=[("mailbox","undelivered messages by sender and key","mplang/backends/simp_worker/mem.py")],obs=["recv results"])
p("C12","Request handles report completion truthfully and in order",
 "A communication request is done exactly when its operation finished, failed or was cancelled; waiting returns the operation's own result or raises its own failure, as often as it is asked. Waiting for several requests returns their results in the order the requests were given, and waiting for any returns the index and result of one that is really done.",
 ["histories","inputs"],"every list of requests in any mix of states and completion orders",
 "Tests wait on a few already-finished requests; order and truthfulness must hold for every number and completion order.",
 ["mplang/backends/simp_worker/base.py"],[("Request/SendRequest/RecvRequest","mplang/backends/simp_worker/base.py"),("wait_all/wait_any/testall/testany","mplang/backends/simp_worker/base.py")],obs=["request methods and wait functions"])
p("C13","Each party executes exactly its share of a multi-party program",
 "A party runs the local computation of a party-restricted call exactly when it is one of the named parties, and otherwise contributes empty results of the right number; a shuffle gives each target the value of the source it is routed from and nothing to anybody else; a converge yields the one present value. Conditionals and loops run the branch or iterate exactly as the agreed predicate says, and the set of current parties is restored afterwards even on failure.",
 ["inputs","configurations","programs"],"every party set, rank, routing table, predicate and number of results",
 "The tests that run these handlers need a missing dependency or a whole cluster; the claim is about every rank and routing, not one two-party example.",
 ["mplang/backends/simp_worker/ops.py"],[("_pcall_static_impl/_pcall_dynamic_impl","mplang/backends/simp_worker/ops.py"),("_shuffle_static_impl/_converge_impl","mplang/backends/simp_worker/ops.py"),("_uniform_cond_impl/_while_loop_impl","mplang/backends/simp_worker/ops.py")],obs=["handler results, nested evaluations and messages"])
p("C14","Party types are sound",
 "The party set a program is given for a value at build time is exactly the set of parties that will hold it: a restricted call is accepted only when every named party holds all inputs, a shuffle only when every source holds the data and its result is placed on exactly the targets, and a converge only of disjoint party sets whose union it gets. Duplicate or negative parties in a request are never turned into a wrong party set.",
 ["programs","inputs"],"every combination of input party sets, requested parties and routing tables",
 "Tests give a few party tuples; soundness quantifies over all sets and routings.",
 ["mplang/dialects/simp.py","mplang/edsl/typing.py"],[("_deduce_parties, pcall trace, shuffle/converge abstract evaluation","mplang/dialects/simp.py"),("MPType","mplang/edsl/typing.py")],obs=["types of traced results, rejected programs"])
p("C15","The driver hands each party its own values and regroups the answers",
 "When a host program runs a multi-party operation, every worker receives its own element of every per-party argument and the shared ones unchanged, and the k-th returned object holds, at position r, precisely the k-th result of worker r. No worker's value is dropped, duplicated or attributed to another worker.",
 ["inputs","configurations"],"every number of workers, arguments and results",
 "Tests run a two- or three-worker cluster with one or two results; index bookkeeping must hold for every shape.",
 ["mplang/backends/simp_driver/ops.py","mplang/backends/simp_driver/values.py"],[("_collect_to_hostvars/_generic_simp_dispatch","mplang/backends/simp_driver/ops.py"),("DriverVar","mplang/backends/simp_driver/values.py")],obs=["submit calls and returned driver variables"])
p("C16","GF(2^128) multiplication is field multiplication in both kernels",
 "For all pairs of 128-bit elements, the native kernel and the pure-Python kernel both return the product modulo x^128 + x^7 + x^2 + x + 1, element by element for batches of any shape. The two therefore agree bit for bit.",
 ["inputs"],"all 2^256 operand pairs and all batch sizes",
 "Tests multiply a few dozen pairs; an error confined to one high-order carry escapes any sample.",
 ["mplang/kernels/gf128.cpp","mplang/kernels/py_kernels.py","mplang/backends/field_impl.py"],[("gf128_mul/gf128_mul_batch","mplang/kernels/gf128.cpp"),("_gf128_clmul64/_gf128_clmul128/_gf128_reduce/gf128_mul_batch","mplang/kernels/py_kernels.py")],obs=["field multiplication results"])
p("C17","Oblivious key-value and parity-check encodings decode correctly",
 "Whenever encoding a set of distinct keys succeeds, decoding every one of those keys returns exactly its value, in both kernels; an encoding that cannot succeed is reported, never returned as if it were good. The parity-check encoder returns, for each row, the exclusive-or of the message blocks that row selects.",
 ["inputs"],"every key set, value vector, table size and seed; every sparse matrix and message",
 "Tests encode random keys at one size; correctness for every peeling order is an inductive claim.",
 ["mplang/kernels/py_kernels.py","mplang/kernels/okvs.cpp","mplang/kernels/ldpc.cpp"],[("okvs_solve/okvs_decode/_hash_key_py/ldpc_encode","mplang/kernels/py_kernels.py"),("solve_okvs/decode_okvs/hash_key","mplang/kernels/okvs.cpp"),("ldpc_encode","mplang/kernels/ldpc.cpp")],obs=["decode(encode(keys, values))"])
p("C18","Cluster descriptions are validated and preserved",
 "A cluster description is accepted only when node ranks are exactly 0..n-1 without repeats and every device refers to known nodes with as many members as its kind requires. Converting an accepted description to a dictionary and back gives an equal description, and addresses are listed in rank order.",
 ["inputs","configurations"],"every set of nodes and devices, in any order, with any names, ranks and members",
 "Tests load two or three fixed descriptions; order independence and rejection are claims over all of them.",
 ["mplang/libs/device/cluster.py"],[("ClusterSpec.__post_init__/from_dict/to_dict/endpoints","mplang/libs/device/cluster.py"),("ClusterSpec.simple, Device and Node","mplang/libs/device/cluster.py")],obs=["ClusterSpec construction, to_dict/from_dict"])
p("C19","Arguments and results keep their structure through flattening",
 "Splitting a nested structure of variables and constants into its variable part and its constant part, and putting the parts back together, yields the same structure with every leaf in its own place. Merging lists split by any classification restores the original order and length.",
 ["inputs"],"every nested structure, every classification of its leaves",
 "Tests use a few structures; a misplaced leaf shows only for particular interleavings of variables and constants.",
 ["mplang/utils/func_utils.py"],[("var_morph/var_demorph","mplang/utils/func_utils.py"),("list_split/list_reconstruct","mplang/utils/func_utils.py"),("normalize_fn","mplang/utils/func_utils.py")],obs=["morph/demorph composition"])
p("C20","Type equality, hashing and serialization agree",
 "Equality of types is an equivalence, equal types have equal hashes, and two types that differ in any component are unequal. Writing a type that has a written form out and reading it back gives an equal type.",
 ["inputs"],"every type that can be built, of any nesting",
 "Tests compare a few types; a component left out of a comparison or a hash matters only for pairs nobody wrote down.",
 ["mplang/edsl/typing.py","mplang/dialects/crypto.py","mplang/dialects/tee.py","mplang/dialects/bfv.py"],[("__eq__/__hash__/to_json/from_json of each type","mplang/edsl/typing.py"),("dialect-specific types","mplang/dialects/crypto.py")],obs=["==, hash, serde.to_json/from_json"])
p("C21","Encryption, key exchange and attestation wrappers compose correctly",
 "Decrypting with the same key returns exactly the value that was encrypted, every encryption uses a fresh nonce that travels with the ciphertext, and a ciphertext altered anywhere or opened with another key is refused. Both ends of a key exchange derive the same symmetric key, and attesting a quote yields exactly the public key (and suite) that was bound into it, also through its byte form.",
 ["inputs"],"every key, plaintext, ciphertext alteration and key pair",
 "Tests encrypt a few values; framing of nonce and ciphertext and binding of keys must hold for all lengths and values.",
 ["mplang/backends/crypto_impl.py","mplang/backends/tee_impl.py"],[("sym_encrypt/sym_decrypt/kem_keygen/kem_derive/hkdf implementations","mplang/backends/crypto_impl.py"),("quote generation, attestation, quote byte form","mplang/backends/tee_impl.py")],obs=["handler results"])
p("C22","Homomorphic operations compute the plaintext operation",
 "Decrypting the result of a homomorphic addition, subtraction or multiplication gives the same operation applied to the operands' plaintexts, for every mix of ciphertext, encoded plaintext and raw operands, in the right order and including zero operands. Aggregating the first k slots, or one bucket per region, leaves the exact sum in the documented slot.",
 ["inputs"],"every pair of operand forms and values, every k and bucket layout within the slot count",
 "Tests try a few operand forms; order of subtraction, zero operands and sizes that are not powers of two multiply the cases.",
 ["mplang/backends/bfv_impl.py","mplang/libs/mpc/analytics/aggregation.py"],[("add/sub/mul/relinearize/rotate implementations","mplang/backends/bfv_impl.py"),("rotate_and_sum, aggregate_sparse, batch_bucket_aggregate","mplang/libs/mpc/analytics/aggregation.py")],obs=["decrypted results"])
p("C23","Streaming a table neither loses, repeats nor reorders rows",
 "Reading a table in batches of any requested size yields, concatenated, exactly the rows of the table in order, each batch but the last having exactly the requested size. Combining several tables column-wise keeps rows aligned and refuses inputs whose row counts differ.",
 ["inputs"],"every requested batch size and every way the underlying data is chunked, including empty chunks",
 "Tests read one small table whose chunks happen to fit; loss occurs only for particular chunk boundaries.",
 ["mplang/backends/table_impl.py"],[("TableReader.read_next_batch/_read_next_batch","mplang/backends/table_impl.py"),("MultiTableReader","mplang/backends/table_impl.py")],state=[("leftover batch","rows read but not yet returned","mplang/backends/table_impl.py")],obs=["batches returned by the reader"])
p("C24","Device transfers reach the destination device and only it",
 "Moving a value to a device yields a value held by exactly that device's members and marked with that device, whatever device kind it comes from; a transfer to an enclave only ever travels encrypted under a key attested by that enclave, and transfers that have no safe route are refused. Moving a value to the device it is already on leaves it unchanged.",
 ["programs","configurations"],"every pair of device kinds, every membership and cluster",
 "The device tests need a missing dependency; the rules form a case analysis over all pairs of device kinds and memberships.",
 ["mplang/libs/device/api.py"],[("_d2d and its per-pair helpers","mplang/libs/device/api.py"),("device inference and put/fetch","mplang/libs/device/api.py")],obs=["traced operations and device attributes of results"])
p("C25","Multi-party protocols reveal nothing beyond their output",
 "In private set intersection, oblivious transfer and secure computation, what a party receives during the protocol is computationally indistinguishable from something it could have produced from its own input and output.",
 ["inputs","programs"],"every pair of private inputs and every efficient distinguisher",
 "A test observes one transcript; secrecy is a statement about distributions over transcripts and computational hardness.",
 ["mplang/libs/mpc/psi/oprf.py","mplang/libs/mpc/ot/base.py","mplang/libs/mpc/psi/rr22.py"],[("PSI, OT and VOLE protocols","mplang/libs/mpc")],obs=["protocol transcripts"])
p("C26","Oblivious transfer, VOLE and OPRF satisfy their correlation",
 "Base and extended oblivious transfer give the receiver exactly the message it chose, for every number of transfers, width and pair of parties; IKNP's matrices satisfy T = Q xor choice*s; Gilboa and silent VOLE give w = v + u*delta over GF(2^128) at every position, for the u and delta they were given or return, and the u of silent VOLE is random, positions far apart being independent; the OPRF evaluates an item to the receiver's output exactly when it is the receiver's item. Every output lies at the party the protocol names and nowhere else.",
 ["inputs","configurations"],"every message, choice, u, delta and item, every number of them, every pair of parties",
 "Tests run one size with random data between parties 0 and 1; the correlation is an identity over GF(2) that must hold for every value and every length, across chunk and padding boundaries.",
 ["mplang/libs/mpc/ot/base.py","mplang/libs/mpc/ot/extension.py","mplang/libs/mpc/ot/silent.py","mplang/libs/mpc/vole/gilboa.py","mplang/libs/mpc/psi/oprf.py"],
 [("base OT","mplang/libs/mpc/ot/base.py"),("IKNP and extended OT","mplang/libs/mpc/ot/extension.py"),("VOLE","mplang/libs/mpc/vole/gilboa.py"),("silent VOLE","mplang/libs/mpc/ot/silent.py"),("OPRF","mplang/libs/mpc/psi/oprf.py")],obs=["values each party holds after the protocol"])
p("C27","Private set intersection, oblivious permutation and group-by return exactly the right result",
 "Both private set intersection protocols mark exactly the items the two sets have in common, whatever the sizes, the order and the items; oblivious permutation returns, at position i, the data at permutation[i], for every length including those that are padded; both group-by protocols return the sum of the data in each bin, across chunk boundaries and for empty bins. The result lies at the party the protocol names and nowhere else.",
 ["inputs","configurations"],"every pair of sets, every permutation, all data and bins, every assignment of roles to parties",
 "Tests run one or two sizes with overlapping ranges; the guarantee is over all sets, permutations and bins, and breaks at padding, chunk and role boundaries.",
 ["mplang/libs/mpc/psi/rr22.py","mplang/libs/mpc/psi/unbalanced.py","mplang/libs/mpc/analytics/permutation.py","mplang/libs/mpc/analytics/groupby.py"],
 [("RR22","mplang/libs/mpc/psi/rr22.py"),("unbalanced PSI","mplang/libs/mpc/psi/unbalanced.py"),("switching network","mplang/libs/mpc/analytics/permutation.py"),("group-by","mplang/libs/mpc/analytics/groupby.py")],obs=["intersection marks, permuted data and sums at the receiver"])
p("C28","Curve points form the group they stand for, infinity included",
 "The elliptic-curve operations compute in the group of points of secp256k1: sums, differences and multiples of points are those of their multiples of the generator, for every pair of points (equal, opposite, or infinity, represented as None) and every integer scalar (negative, zero, larger than the order, in a tensor or not); a point written to bytes reads back as the same point, infinity included; random scalars are residues modulo the order.",
 ["inputs"],"every pair of points in either byte form, every scalar",
 "Tests add a few multiples of the generator; the group law breaks at opposite points, infinity, negative scalars and scalars above the order, which samples do not hit.",
 ["mplang/backends/crypto_impl.py"],[("add, sub, mul, point bytes, scalars","mplang/backends/crypto_impl.py")],obs=["points and bytes returned by the crypto operations"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
