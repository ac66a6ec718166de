"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().split("## Planted changes")[0]
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"], m["what_it_breaks"]))
text += """## Planted changes

Each of the %d changes below was written from the text of a property and the
code, leaves the existing tests passing, and comes with a demonstration in
`seeded/<id>/`. Each is caught by the quick check of the property its name
starts with. First missed, and what was added: C13-global-executor (family
`forked`), C04-flat-positions (8- and 16-bit positions in all workloads),
C27-svd-solve (larger pseudo-inverses), C08-lower-rank-kept (increases of one
side), C11-small-seeds (isotropy at ranks up to 48), C12-stack-buffer (block
sizes), C10-chunks (family `many_positions`), C13-shared-cores (forced thread
switches), C06-near-one (factors next to 1), C20-eps-of-total (exact count of
kept singular values), C26-map-sizes (sums of maps of other shapes),
C27-projector-solve (scaled columns), C29-cp-gram (family `cp_tucker_sum`),
C09-abs-seed (negative seeds), C14-shared-last-core (trains that share cores),
C15-sum-dot-symmetric (sums of up to nine tensors), C24-near-identity (cores
next to the identity, ones or zeros), C29-one-hot (sketches of thousands of
entries), C06-drm-t-copy (transposes of slices), C03-rank-one-shortcut
(sketches of rank one), C17-round-reverse (rounding with
`orthogonalized=True`), C28-result-hides-argument (results 0, inf, -0.0),
C31-positions-32-bits and C31-common-copy (huge modes, family `several`),
C14-iadd-again (`s += b` twice), C17-times-one (sums times 1), C26-middle-map
(many maps), C28-inner (family `long`), C04-unique-modes (modes to 12000),
C13-rounded-step (family `large_arrays`), C27-float-sizes (empty arrays),
C04-large-chunks (1e5 entries), C23-many-iterations (family `very_long`),
C21-large-randomized (families `large`), C28-twelve-arguments (34 arguments),
C26-increase-restore (failed increases), C27-hilbert-sizes (many positions),
C15-norm-remembered, C18-sparse-size-cached, C19-orthogonal-flag and
C24-remembered-result (tensors and maps edited between two uses: families
`modified`), C22-pairwise-groups (sums of up to 180 trains), C06-mul-tiny
(numpy factors, tolerance relative to the factor), C02-cholesky-qr (family
`large`), C01-sum-default-map (sums of 8 to 45 tensors), C17-to-tt-shared
(family `results_stand_alone`).

Not caught at quick tier when they were planted last (nothing was added for
them): C02-hmt-sum-rank, C05-sub-sum, C14-weights-iterator,
C18-orthog-norm-goal, C23-final-rank-capped. A twelfth-set change of the number
of vanishing singular values in `svdvals` was missed too and not kept: C19
states the singular values, not how many zeros are listed.

| change | needs | breaks |
|---|---|---|
%s
""" % (len(rows), "\n".join(rows))
open(path, "w").write(text)
