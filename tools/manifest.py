"""Regenerate MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "P01": "TLA+ MeshModel model-checked by TLC; TLC-enumerated split histories replayed into MeshBuilder; recorded traces judged by TLC (MeshTrace)",
 "P02": "TLA+ MeshModel model-checked by TLC; TLC-enumerated split histories replayed into MeshBuilder; recorded traces judged by TLC (MeshTrace)",
 "P10": "TLA+ MeshModel model-checked by TLC; enumerated and random split/point histories replayed into loaded meshes; traces judged by TLC (MeshTrace)",
 "P11": "TLA+ MergeModel model-checked by TLC; enumerated and random merges replayed; traces judged by TLC (MeshTrace)",
 "P12": "TLA+ MeshModel meshes enumerated by TLC; point queries replayed; traces judged by TLC (MeshTrace)",
 **{p: "TLA+ Build/BuildModel model-checked by TLC; TLC-enumerated and random configurations built by MeshBuilder; the resulting mesh judged by TLC against the refinement machine and value rules (BuildTrace)" for p in ("P03", "P04", "P05", "P06", "P07", "P08", "P18", "P19")},
 **{p: "TLA+ IOModel model-checked by TLC; all enumerated histories of write, read, split, update, merge and export (plus longer random ones) replayed into real meshes; every step judged by TLC (IOTrace)" for p in ("P09", "P15")},
 "P16": "the same source arranged, stored and run in several ways; the resulting meshes compared by TLC (IOTrace)",
 "P13": "TLA+ Conf/BoxModel: all boxes of a small lattice enumerated by TLC plus random boxes and date expressions; what the program derives from each judged by TLC (ConfTrace)",
 "P14": "TLA+ Conf/ConfModel: all configurations reachable by up to two edits enumerated by TLC, submitted to the real program; acceptance judged by TLC (ConfTrace)",
 "P17": "random configurations built through add_dataloader; the resulting mesh judged by TLC against the refinement machine and value rules of the TLA+ specification (BuildTrace, MeshTrace)",
 "P20": "TLA+ Readers/ReadersModel: file catalogues enumerated by TLC plus random ones written in the published formats and read by the real loaders; what is delivered judged by TLC (ReadersTrace)",
 "P22": "TLA+ Raster/RasterModel: meshes and image sizes enumerated by TLC; GeoTIFF files written by the real export, pixel by pixel, judged by TLC (RasterTrace)",
 "P26": "TLA+ Plot/PlotModel: values and layers of small meshes enumerated by TLC plus random meshes; PNG files drawn by the real export, sampled in every cell and gap, judged by TLC (PlotTrace)",
 "P23": "TLA+ Docs/DocsModel: all vessel files, route files and waypoint tables reachable by up to two edits enumerated by TLC, submitted to the real validators; acceptance judged by TLC (DocsTrace)",
 "P24": "TLA+ Compare/CompareModel: pairs of meshes reachable by edits enumerated by TLC plus random ones; what the real comparator reports judged by TLC (CompareTrace)",
 "P25": "TLA+ Valid/ValidModel: meshes and placements of points enumerated by TLC plus random ones; what the real validators measure judged by TLC (ValidTrace)",
 "P21": "TLA+ Builtin/BuiltinModel: cells and periods enumerated by TLC plus random ones; values the real loaders give judged by TLC (BuiltinTrace)",
}
NOTE = {k: "model exhaustive up to the recorded constants; conformance by replay of all enumerated histories plus seeded random ones, every step judged by TLC" for k in TECH}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="sh bin/setup",
 hooks=dict(guard="none", enable="no hooks: the checks drive the public interfaces of the unmodified package", source_commits=[]),
 checks=[dict(property=p, quick_cmd=f"bin/check {p} quick", thorough_cmd=f"bin/check {p} thorough", technique=TECH[p], level="model_checking",
              level_note=NOTE[p], evidence_file=f"evidence/{p}.json") for p in props if p in TECH],
 not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in TECH],
 notes="TLA+ with TLC. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
