#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be reviewed as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Table row transforms are keyed, pointwise and leave their input unchanged",
 "Transforming the rows of a table (by value, by key and value, or by a predicate) yields a new table in which every surviving key is paired with exactly the function applied to that key's row, filtering keeps exactly the rows for which the predicate is true, and order is preserved. Building a table keeps every given row under its key (or under its position when no keys are given) and rejects duplicate keys. None of these operations, nor counting and taking the first n rows, changes the table they are called on.",
 ["inputs"], "every table content and size, every user function",
 "the d_table tests run each method on one or two fixed tables of a few rows; nothing bounds what happens for other sizes, keys, orders or functions",
 ["computing/d_table.py"],
 [("construct / map / mapValues / filter / take / first / count / mapPartitions", "computing/d_table.py DTable")],
 [("table rows", "insertion-ordered key to row map", "computing/d_table.py DTable")],
 ["DTable.collect", "DTable.get_kvs"])
prop("C02", "Combining two tables obeys set algebra and the left row comes first",
 "Joining two tables yields exactly the keys present in both, uniting them yields exactly the keys present in either, and subtracting yields exactly the keys of the first that are absent from the second. Where a key is in both, the combined row is the combining function applied to the first table's row and the second table's row in that order (first table's row by default); where only one table has it, that table's row. Neither input table changes.",
 ["inputs"], "every pair of tables, every combining function",
 "tests join/unite fixed tables of about three rows; overlap patterns, argument order with a non-commutative function and mutation of inputs are not covered",
 ["computing/d_table.py"], [("join / union / subtractByKey", "computing/d_table.py DTable")],
 [("table rows", "insertion-ordered key to row map", "computing/d_table.py DTable")], ["DTable.collect"])
prop("C03", "Table reductions consume every row exactly once",
 "Reducing a table folds the reducing function over all rows exactly once each, in table order, and gives nothing for an empty table. Map-reduce over partitions yields, for every key the mapper emits, the fold of all values emitted for that key in emission order, and no other keys. Partition mapping stores exactly the mapper's output, numbered from zero.",
 ["inputs"], "every table, mapper and reducer",
 "the two reduce tests use commutative addition on fixed tables",
 ["computing/d_table.py"], [("reduce / mapReducePartitions / mapPartitions", "computing/d_table.py DTable")], [], ["DTable.reduce", "DTable.collect"])
prop("C04", "Fixed-point encoding round-trips signed numbers and rejects the rest",
 "Encoding a signed number for encryption and decoding it returns the number itself for integers and a value within half a unit of the chosen exponent for reals; a stated precision is honoured. Numbers smaller in magnitude than 1e-200 count as zero. A number whose scaled magnitude exceeds the positive range of the modulus is rejected rather than wrapped, and decoding a residue outside both the positive and the negative range is refused. Aligning a number to a finer exponent does not change the value it decodes to.",
 ["inputs"], "every integer, real, modulus, exponent and precision",
 "no test exercises the encoder; sampling cannot cover the range boundaries of a 2048-bit modulus",
 ["ml/secureprotol/fixedpoint.py"], [("encode / decode / increase_exponent_to / encode helpers", "ml/secureprotol/fixedpoint.py FixedPointNumber")],
 [("encoding, exponent, modulus, positive bound", "value = encoding * 16**-exponent mod modulus", "ml/secureprotol/fixedpoint.py FixedPointNumber")], ["FixedPointNumber.decode"])
prop("C05", "Fixed-point arithmetic agrees with arithmetic on the decoded numbers",
 "Adding, subtracting and multiplying encoded numbers (with each other or with plain numbers, whatever their exponents) gives an encoding in the same modulus. Whenever the result is in range, sums and differences are exact (taken at the finer of the two exponents) and products are exact up to the rounding of one re-encoding; a plain number takes part with the value it is encoded to. Comparing two encoded numbers gives the same answer as comparing the numbers they decode to.",
 ["inputs"], "every pair of encoded numbers sharing a modulus, every exponent pair",
 "no test exercises fixed-point arithmetic",
 ["ml/secureprotol/fixedpoint.py"], [("operators", "ml/secureprotol/fixedpoint.py FixedPointNumber.__add__/__sub__/__mul__/__lt__/...")], [], ["FixedPointNumber.decode"])
prop("C06", "Decrypting what was encrypted returns the plaintext under any valid key",
 "For every valid key pair, every plaintext in range and every randomiser, decrypting the Paillier encryption of the plaintext returns it, whether or not the ciphertext was re-randomised. Ciphertexts produced under a different public key are refused. The prime, inverse and power helpers return a number with the stated property.",
 ["inputs", "configurations"], "every pair of distinct primes with a valid modulus, every plaintext, every randomiser",
 "no test covers the cryptosystem; a test can only sample keys and messages",
 ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/gmpy_math.py", "ml/secureprotol/encrypt.py"],
 [("keygen, raw encrypt, obfuscate, raw decrypt with CRT", "ml/secureprotol/fate_paillier.py"), ("powmod, invert", "ml/secureprotol/gmpy_math.py"), ("wrapper", "ml/secureprotol/encrypt.py PaillierEncrypt")],
 [("private key p, q, hp, hq, q_inverse", "CRT parameters", "ml/secureprotol/fate_paillier.py PaillierPrivateKey")], ["PaillierPrivateKey.decrypt"])
prop("C07", "Ciphertext arithmetic decrypts to the same arithmetic on plaintexts",
 "Adding or subtracting Paillier ciphertexts, adding or subtracting plain numbers, and scaling or dividing by plain numbers yield a ciphertext that decrypts to the same operation on the plaintexts, for operands of any exponents, as long as the true result is in range. Combining ciphertexts of different public keys is refused.",
 ["inputs", "histories"], "every operand values, exponents, signs and randomisers",
 "no test covers ciphertext arithmetic",
 ["ml/secureprotol/fate_paillier.py"], [("PaillierEncryptedNumber operators", "ml/secureprotol/fate_paillier.py PaillierEncryptedNumber")],
 [("ciphertext, exponent", "residue mod n^2 and base-16 exponent", "ml/secureprotol/fate_paillier.py PaillierEncryptedNumber")], ["PaillierPrivateKey.decrypt"])
prop("C08", "The affine cipher round-trips and is additively homomorphic",
 "For every affine key, decrypting an encryption returns the encoded number up to the encoder's precision. Sums and differences of affine ciphertexts, and products with plain scalars, decrypt to the same operation on the plaintexts as long as the result is in range.",
 ["inputs"], "every key, plaintext and sequence of operations",
 "no test covers the affine cipher", ["ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/encrypt.py"],
 [("encrypt / decrypt / operators", "ml/secureprotol/affine.py"), ("encoder", "ml/secureprotol/affine_encoder.py")], [], ["AffineCipher.decrypt"])
prop("C09", "Every encryption mode returns encryptions of the current data",
 "In strict, fast and balance mode alike, after any number of previous calls, encrypting a table returns a table with exactly the same keys in which each row's ciphertexts decrypt to that row's current numbers. A re-randomisation rate outside its documented meaning never makes stale data come back, and an unknown mode is rejected.",
 ["inputs", "histories", "configurations"], "every mode, rate and history of calls",
 "no test covers encryption modes; the defect class (stale cache) only shows over a history of calls",
 ["ml/secureprotol/encrypt_mode.py"], [("EncryptModeCalculator.encrypt and its helpers", "ml/secureprotol/encrypt_mode.py")],
 [("previous data, previous ciphertexts, zero ciphertexts", "cache of the last call", "ml/secureprotol/encrypt_mode.py EncryptModeCalculator")], ["EncryptModeCalculator.encrypt"])
prop("C10", "Bin numbers are the position among split points; callers' rows stay untouched",
 "Every feature value is mapped to the number of the first split point that is not smaller than it (the last bin when it exceeds all), zero has the bin that the value zero maps to, and features not selected for binning keep their value. Dense and sparse rows with the same values get the same bins. Converting a table to bin numbers, or from dense to sparse rows (which drops values within 1e-6 of zero), gives new rows and leaves the rows given by the caller unchanged.",
 ["inputs"], "every value, split point list, column selection and row representation",
 "no test covers binning",
 ["ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py"],
 [("bin search", "ml/feature/binning/base_binning.py get_bin_num / bin_data"), ("row conversion", "ml/feature/binning/base_binning.py convert_feature_to_bin, _convert_dense_data, _convert_sparse_data")],
 [], ["QuantileBinning.convert_feature_to_bin"])
prop("C11", "Quantile summaries account for every value and answer within their rank error",
 "After any sequence of inserts, compressions and merges a summary's weights add up to the number of values inserted and its retained values are in order. A quantile query returns a retained value whose true rank is within the declared relative error (plus one position) of the requested rank. Split points derived for a column are values of the column (or zero for a sparse column), in increasing order and without repetition. For a sparse column ranks are taken with the unstated zeros in their place.",
 ["inputs", "histories"], "every sequence of inserted values, every error, every interleaving of flush, compress and merge",
 "no test covers summaries; buffers flush only after 50000 inserts so sampled tests never reach a second flush",
 ["ml/feature/quantile_summaries.py", "ml/feature/binning/quantile_binning.py"],
 [("insert / flush / compress / merge / query", "ml/feature/quantile_summaries.py QuantileSummaries"), ("split points", "ml/feature/binning/quantile_binning.py")],
 [("retained (value, g, delta) tuples, head buffer, count", "Greenwald-Khanna summary", "ml/feature/quantile_summaries.py")], ["QuantileSummaries.query"])
prop("C12", "Histograms are exact per-node, per-feature, per-bin sums of gradients",
 "A node's histogram has, for every selected feature and every bin, the sum of gradients, the sum of hessians and the number of the samples of that node whose feature falls in that bin; features absent from a sparse row count in the bin of zero. Accumulating turns the bins into running totals from the first bin to the last. Combining the histograms of two partitions adds them position by position.",
 ["inputs"], "every set of rows, node assignment, bin layout, sparsity pattern and partitioning; plain numbers and ciphertexts alike",
 "no test covers histograms",
 ["ml/tree/feateur_histogram.py"], [("calculate / accumulate / aggregate / sparse completion", "ml/tree/feateur_histogram.py FeatureHistogram")],
 [("histogram", "[node][feature][bin][g, h, count]", "ml/tree/feateur_histogram.py")], ["FeatureHistogram.calculate_histogram"])
prop("C13", "The chosen split is the best admissible one over all parties' candidates",
 "For each node the chosen split has the largest regularised gain among all candidate splits of all parties whose two sides meet the minimum node size and whose gain exceeds the minimum gain (differences within 1e-6 count as ties, and the guest's own candidate wins a tie), and no split is chosen when there is none. The gain is G_L^2/(H_L+lambda) + G_R^2/(H_R+lambda) - G^2/(H+lambda) and the sums reported with it are those of its left side. A host's candidates are identified to the guest by position so that the host can recover the exact feature and bin.",
 ["inputs"], "every histogram, regularisation, minimum gain and minimum node size; every number of hosts",
 "no test covers split finding",
 ["ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py"],
 [("gain", "ml/tree/creterion.py XgboostCriterion"), ("guest search / host enumeration", "ml/tree/splitter.py Splitter"), ("federated choice and merge", "ml/tree/hetero_decision_tree_guest.py find_best_split_guest_and_host, merge_splitinfo")],
 [], ["Splitter.find_split", "HeteroDecisionTreeGuest.merge_splitinfo"])
prop("C14", "A grown tree is a well-formed binary tree whose node statistics add up",
 "Node i of a grown tree has identifier i; every internal node has exactly two children with larger identifiers and every other node is a leaf; each node but the root is the child of exactly one node. The gradient and hessian sums of two siblings add up to their parent's, and a leaf's output is -G/(H+lambda). No node lies deeper than the configured maximum depth, the root counting as level one.",
 ["inputs", "histories"], "every sequence of split decisions, every depth and number of parties",
 "no test builds a tree",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/node.py", "ml/tree/creterion.py"],
 [("node bookkeeping", "ml/tree/hetero_decision_tree_guest.py update_tree_node_queue, fit")],
 [("tree node list and current node queue", "breadth-first tree", "ml/tree/hetero_decision_tree_guest.py")], ["HeteroDecisionTreeGuest.tree_"])
prop("C15", "Every training sample is routed to exactly one node by its owner's feature",
 "When a level is split, every sample at an internal node goes to the left child exactly when its value of the split feature, as known by the party that owns the feature, falls in a bin not beyond the split bin, and to the right child otherwise; samples at leaves take the leaf's weight. No sample is lost, duplicated or left at an internal node.",
 ["inputs", "histories"], "every assignment of samples to nodes, every split, every number of hosts",
 "no test covers routing",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py"],
 [("assign / dispatch / redispatch", "ml/tree/hetero_decision_tree_guest.py assign_a_instance, dispatch_all_node_to_host, redispatch_node; host dispatch_node")],
 [("node dispatch", "sample id to (is inner node, node id)", "ml/tree/hetero_decision_tree_guest.py")], ["sample to leaf table"])
prop("C16", "Prediction walks the same root-to-leaf path the features dictate",
 "Predicting a sample follows, from the root, the left child exactly when the owning party's feature value is at most the split threshold, across any alternation of guest-owned and host-owned nodes, and ends at that path's leaf whose weight is returned. A sample's bin is not beyond the split bin exactly when its value is at most the split point stored as threshold, so a training row is predicted into the leaf it was trained in.",
 ["inputs", "histories"], "every tree, every sample, every ownership pattern, every number of hosts",
 "no test covers prediction",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/decision_tree.py"],
 [("traversal", "ml/tree/hetero_decision_tree_guest.py traverse_tree, predict; host traverse_a_record"), ("thresholds", "convert_bin_to_real")],
 [], ["HeteroDecisionTreeGuest.predict"])
prop("C17", "Labels, gradients and feature values do not leave their party in the clear",
 "Everything the label-holding party sends to a host before the model is complete is ciphertext, sample identifiers, node numbers, split positions or public keys: it carries no label, gradient, hessian, weight or feature value in the clear. Everything a host sends is ciphertext sums, counts, node routing or opaque split positions, never a feature value or a threshold. The private key is never sent.",
 ["inputs", "histories", "configurations"], "every training run and every prediction run",
 "no test looks at message contents",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"],
 [("every send to the other party", "transfer_inst.send_data_to_hosts / send_data_to_guest call sites")], [], ["TransferInst.send_data"])
prop("C18", "A message is delivered whole however the network fragments it",
 "The object received is equal to the object sent, for any object size and any way the byte stream is cut into pieces, and consecutive messages on a connection are not mixed. A connection closed in the middle of a message is reported as an error instead of waiting for ever or returning a truncated object. A message addressed to one host reaches that host only, one addressed to all reaches each exactly once, and replies are collected in host order; an unknown host is refused.",
 ["inputs", "schedules", "fault_sequences"], "every payload, every fragmentation of the stream, closure at every byte, every host index",
 "no test covers the transport; fragmentation is scheduled by the network",
 ["federation/transfer_inst.py"], [("framing", "federation/transfer_inst.py TransferInst.send_data / recv_data"), ("addressing", "TransferInstGuest.send_data_to_hosts / recv_data_from_hosts")], [], ["TransferInst.recv_data"])
prop("C19", "Gradients and hessians are the derivatives of the advertised loss",
 "For the classification losses and the least-squares, log-cosh, fair, huber and absolute regression losses, the gradient used for training is the derivative of the loss with respect to the raw score at every point where it is differentiable (zero at the kink), and the hessian is the derivative of the gradient (or the documented positive constant). The sigmoid lies strictly between 0 and 1 and mirrors around zero without overflow, and softmax probabilities are positive and add up to one.",
 ["inputs"], "every label, score and loss parameter",
 "no test covers the losses", ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py"],
 [("gradients and hessians", "ml/loss/*.py compute_grad / compute_hess / compute_loss"), ("link functions", "ml/optim/activation.py")], [], ["compute_grad", "compute_hess"])
prop("C20", "Boosted scores, labels and stopping follow the documented rules",
 "After each tree the raw score of every sample is its previous score plus the learning rate times the leaf weight it was assigned, starting from the initial score. The predicted class is the original label whose probability is largest (for two classes, decided by the threshold), and the mapping between original labels and class numbers is a bijection. Training stops early exactly when the change of the loss is smaller in magnitude than the tolerance.",
 ["inputs", "histories"], "every label set, learning rate, tree sequence and loss history",
 "no test covers boosting",
 ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/optim/convergence.py", "ml/utils/classfiy_label_checker.py"],
 [("score update", "ml/tree/hetero_secureboosting_tree_guest.py update_f_value, generate_flowid..., predict"), ("convergence", "ml/optim/convergence.py"), ("labels", "ml/utils/classfiy_label_checker.py")], [], ["HeteroSecureBoostingTreeGuest.predict"])
prop("C21", "An exported model loads back to a model that behaves the same",
 "Exporting a trained tree on either party and loading it into a fresh object reproduces every node, feature, threshold, child and weight, and a host's own split features and thresholds, so that predictions are unchanged; the trees a boosted model keeps are in this exported form, and it predicts from them as the trees that were trained would. Loading does not depend on anything left over from training.",
 ["inputs", "configurations"], "every trained model of any size on either side",
 "no test covers export or import",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"],
 [("export / load", "get_model_meta, get_model_param, set_model_meta, set_model_param, load_model")], [], ["export_model / load_model"])
prop("C22", "Parameter validation accepts exactly the documented parameter values",
 "Validating a parameter object succeeds for every combination of documented values and raises an error for a value of a wrong type or outside the documented range or choice; the boosting parameters are valid only if their tree, objective, encryption and encryption-mode parts are. Validation does not change a valid value except for documented normalisation of letter case.",
 ["inputs", "configurations"], "every value of every parameter (NaN excepted)",
 "no test covers parameters", ["ml/param"], [("check methods", "ml/param/*.py")], [], ["BaseParam.check"])
prop("C23", "Loading and splitting data keeps every row intact and both parties aligned",
 "Loading a csv file yields one row per data line, under its identifier, with its label where the file has one and its features in column order and unchanged. Splitting by identifiers gives disjoint training and test tables that together hold every row once, and the same identifiers on the guest and on every host whose files list the same identifiers in the same order.",
 ["inputs"], "every csv content, every split",
 "no test covers loading", ["i_o/utils.py", "guest.py", "host.py"], [("csv readers", "i_o/utils.py"), ("split", "guest.py data_split, host.py data_split")], [], ["DTable returned by the reader"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
