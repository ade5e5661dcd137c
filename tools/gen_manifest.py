#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

PBT = "property-based testing (proptest, 8 seeded generators, shrinking)"
TRUST = "Trusts the reference model in the harness and, for inputs it did not generate, the generators' reach."
checks = {
 "C01": (PBT + ": range invariants over generated images, both precisions", "Images up to about 64x64 in the quick tier. " + TRUST),
 "C02": (PBT + ": brute-force density clustering of reference Lab pixels as reference model, bipartite matching of swatches", "Pixel pairs within rounding error of the radius make cases ambiguous; these are matched against all allowed outcomes or counted as discarded. " + TRUST),
 "C03": (PBT + ": stateful histories of extractions compared across repetition, threads and processes", "Schedules are those the machine produces, not enumerated. " + TRUST),
 "C04": (PBT + ": order laws over generated swatches, sortedness of extracted palettes", TRUST),
 "C05": (PBT + ": metamorphic relation over alpha bytes", TRUST),
 "C06": (PBT + ": metamorphic relations of mirrored, rotated and transposed images", "Only images without ambiguous pixels, as stated in the property. " + TRUST),
 "C07": (PBT + ": differential test of single against double precision", "Only images without pixel distances near the radius, as stated in the property. " + TRUST),
 "C08": ("exhaustive generated-input search over all 24-bit colors against a reference conversion", "All 2^24 colors in both precisions. Trusts the reference formulas."),
 "C09": ("exhaustive round trip over all 24-bit colors", "All 2^24 colors in both precisions."),
 "C10": (PBT + ": reference conversion over in- and out-of-gamut values", TRUST),
 "C11": (PBT + ": brute force over exact lattice point clouds", TRUST),
 "C12": (PBT + ": brute force over exact lattice point clouds", TRUST),
 "C13": (PBT + ": brute-force definition of density clusters over exact lattice point clouds", TRUST),
 "C14": (PBT + ": lattice sums recovered from centroids and counts, matched with reference clusters", TRUST),
 "C15": (PBT + ": fixed-point and stopping-rule oracle over Lloyd iterates", "Cases with very many equidistant points are decided by counts only. " + TRUST),
 "C16": (PBT + ": reference Lloyd step between successive iteration limits, bounds and edge cases", "Cases with very many equidistant points are decided by counts only. " + TRUST),
 "C17": (PBT + ": sub-multiset, determinism and farthest-first oracles over seeded generator states", TRUST),
 "C18": (PBT + ": Kruskal reference over generated weighted graphs, order laws of edges", TRUST),
 "C19": (PBT + ": single-linkage validity predicate over partitions for every k", TRUST),
 "C20": (PBT + ": model-based operation sequences", TRUST),
 "C21": (PBT + ": brute force over exact lattice point clouds", TRUST),
 "C22": (PBT + ": metric laws over exact and floating-point triples", TRUST),
 "C23": (PBT + ": operation sequences against component lists", TRUST),
 "C24": (PBT + ": replay of merges against a model and Kruskal's algorithm", TRUST),
 "C25": (PBT + ": clamp laws and nearest-value oracle", TRUST),
 "C26": (PBT + ": round trip through accessors and text, equality laws", TRUST),
 "C27": (PBT + ": heap accounting by a counting allocator over generated images, small call stacks, repeated extractions", "Counts the heap of the extracting thread. " + TRUST),
 "C28": (PBT + ": counting point type, effort relative to linear search over generated evenly spread datasets", "Effort is counted in uses of points, not time. " + TRUST),
 "C29": (PBT + ": monotone cost over growing iteration limits (metamorphic)", TRUST),
 "C30": (PBT + ": requests just and far beyond the valid range next to valid ones", TRUST),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert ids == list(checks), (ids, list(checks))
manifest = {
  "version": 1,
  "setup_cmd": "./setup.sh",
  "hooks": {
    "guard": "verif_hooks",
    "enable": "RUSTFLAGS='--cfg verif_hooks --cfg verif_hooks=\"<group>\"' with one group per module under test (run.sh); C01 to C07 and C27 use the public API without hooks",
    "source_commits": ["381c189", "7db7483"],
  },
  "checks": [
    {
      "property": i,
      "quick_cmd": f"./run.sh {i}",
      "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
      "evidence_file": f"evidence/{i}.json",
      "technique": t,
      "level": "exploration",
      "level_note": n,
    }
    for i, (t, n) in checks.items()
  ],
  "not_applicable": [],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
