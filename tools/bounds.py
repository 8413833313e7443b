#!/usr/bin/env python3
"""Bounds of the sequential checks, written into checks.json (shown in the evidence)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "checks.json")
d = json.load(open(p))
B = {
"C01": ("all histories of 5 (bimodal) / 6 (unimodal) operations over the full operation alphabet; every ill-formed call after every history of up to 4 operations; bulk recordings of 1..600 frames across the storage boundaries, 3 deep; shared memory, 4 deep", "one operation deeper in each family"),
"C02": ("two phrases of each of 4 kinds (unimodal/bimodal x owned/shared), every filling, all histories of 3 copy/assign/mutate operations plus a final destruction; phrases in vector/map containers, 4 deep", "one operation deeper"),
"C03": ("all histories of 3 operations out of 14 (add, replace, remove, clear, relabel through set, phrase and assignment, ...) over 2..3 indices and labels, unimodal and bimodal; 4 deep over a reduced alphabet; sets of up to 6 phrases and 5 labels", "4 deep full alphabet, 5 deep reduced"),
"C04": ("all histories of 3 operations out of 12 over two sets (owning/shared, unimodal/bimodal), phrases and subsets that outlive them, every destruction order", "4 deep"),
"C05": ("every parameter of 11 kinds of objects x every boundary value, before and after each of 6 ways to obtain the object; all histories of 3 changes of dimension/input dimension/modality/names; histories of 3 operations on the generic attribute of each value type", "4 deep"),
"C06": ("all phrases of up to 3 frames of dimension 1..3 over a value alphabet, with surplus frames per modality, owned and shared; all sets of up to 3 phrases of 0..3 frames (6 cells); every rescale/normalise operation; 5 offsets x 3 steps x 5 patterns x 5 lengths up to 200 x 1..3 phrases of values large compared with their variation; all sizes of offset and gain up to 5", "7 cells, 3 frames in dimension 3"),
"C07": ("phrases: kinds x sizes x lengths 0..3 x surplus frames x value rotation x 2 ways x 5 targets x 4 uses; sets of up to 3 phrases x labels x lengths x targets x uses; training after reload", "longer phrases, all 3 ways"),
"C08": ("all 12+ model kinds x 4 targets x 3 ways x 6 configurations; all 2^n configuration bits for 6 kinds; all sequences of up to 4 frames; single classes, parameters, gaussians over their value grids; five classes in up to 6 dimensions, then changed and trained again", "all configuration bits for 12 kinds, 5 frames"),
"C09": ("every node of every document of 15 object types x every one of the mutations (removed, each other JSON type, lengths -1/+1/0/x10, out-of-range numbers) x targets, alone or within a document; every document loaded into every type; every node replaced by the corresponding node of another document", "all 12 kinds of classes and models"),
"C10": ("all means/covariances of a grid in dimension 1..3, both modes, 6 modality splits, all observations; all histories of 3 operations out of 14 (mode, dimension, regularisation, copy, JSON, ellipse); dimension 4..7, every split", "4 deep, finer grid"),
"C11": ("all 1x1..3x3 matrices over 4..5 values, all 4x4 0/1 matrices, all permuted triangular matrices up to 5x5, all rectangular matrices up to 4x2/2x4, every operation on every shape up to 3x3", "6x6 permutations, 5 values"),
"C12": ("all histories of 5..6 operations (frames, reset, window changes, mode changes) for GMM, HMM and standalone classes with 1..2 classes and windows 1..3; windows 1..12 over 25+ frames; the circular buffer itself, 6 operations out of 6", "one operation deeper"),
"C13": ("1..3 classes, 5 shapes, both covariance modes, overrides, 1..2 components, both estimators, 4 parameter grids, windows 1..2, all sequences of 3 frames over 4; trained models, then each of 6 actions, then every frame; wide: up to 5 classes, 6 dimensions, 5 components, longer sequences", "11 grids, 3 components, 7 shapes, 4 frames"),
"C14": ("hierarchical or not, 1..3 classes, 1..3 states, 2 topologies, 3 regression estimators, exit and class transition patterns, mixed classes, 2 grids, all sequences of 3 frames over 3; trained models, then each of 7 actions; wide: up to 5 classes, 10 states, 5 dimensions, long sequences", "6 grids, 4 frames, dimension 3"),
"C15": ("every data set of 1..5 frames over 3..4 values in dimension 1 and 2 (bimodal 2 and 3), cut into 1..2 phrases, 1..3 gaussians, 2 covariance modes, 3 stopping rules; all settings x 3 data sets x 4 shapes; wide: more gaussians, dimensions and up to 3 phrases", "7 frames, 7 shapes, 5 data sets"),
"C16": ("every data set of 1..6 frames (5 in two dimensions) in 1..3 phrases, 1..3 states, 2 topologies, 2 stopping rules; all settings x 2 data sets x 3 shapes; wide: more states, dimensions and frames", "7 frames, 4 states, 6 shapes"),
"C17": ("all histories of 3 training/removal/reconfiguration operations x 8 kinds (sequential) and x 3 threading modes (4 kinds); each class of each set in every insertion order and mode, all kinds; five classes, one again, removed or others", "4 deep, 8 kinds threaded"),
"C18": ("all histories of 4 operations out of 14 for 2 kinds, 3 for 3 more, 2 for all kinds, against a list of classes; five classes, 3 operations out of 12", "one deeper, 6 kinds"),
"C19": ("all histories of 3 operations over two related models (copy, assign, swap, local changes) for 10 pairs of kinds, full alphabet for one pair; class copies; leak checking; five classes in up to 6 dimensions, 5 ways x 6 changes", "all pairs with the full alphabet, 3..4 deep"),
"C20": ("all histories of 5 operations (3 frames, reset, double reset) for all kinds and 1..2 classes; 4 deep with training and loading; five classes in up to 6 dimensions, windows up to 5, a reset after any of 10 frames", "7 and 5 deep"),
"C24": ("every failing kind x every model kind x threading mode x position among 1..3 classes; every follow-up history of 3 operations out of 7; refused training calls; five classes, each good or failing; two classes with phrases of other dimensions or modalities (5 mismatches, 3 ways into the set)", "4 deep, 8 kinds"),
"C25": ("every data set of up to 6 frames over 4 values (5 in two dimensions), every cut, 1..3 clusters, 3 stopping rules, every answer of the random initialisation; histories of two clusterings of 4 operations out of 11; wide: longer data and more clusters", "7 frames, 5 deep"),
"C27": ("all histories of 4 operations on a generator with up to three listeners, one of which adds, removes, clears or assigns during delivery; listeners of phrases within sets and of models, 3 deep; phrases that are fresh, copied, reloaded or shared", "5 deep"),
"C26": ("all histories of 3 (HMM) / 4 (GMM) operations out of 13 on one setting (each of 4 / 8 settings) of global/class a/class b; combined settings 4 deep", "one deeper"),
}
A = ["values outside the enumerated alphabets and histories longer than the bound are not explored",
     "the reference model (see DESIGN.md) is right; floating-point results are compared within a tolerance",
     "the sanitizers report every invalid memory access and undefined operation they are documented to report"]
for k, (q, t) in B.items():
    d[k]["bounds_quick"], d[k]["bounds_thorough"] = q, t
    d[k].setdefault("assumptions", A)
json.dump(d, open(p, "w"), indent=1)
