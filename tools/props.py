#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. One entry per property; a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


NB = "source/nblist/include/"
prop("C01", "Neighbour lists contain exactly the atoms within the cutoff",
     "For every structure, cutoff, bin size and choice of periodic directions, the neighbour list of each centre atom contains every periodic image of every atom that lies within the cutoff of it, exactly once, excludes the centre itself, and contains nothing else. Non-periodic directions contribute no images.",
     ["inputs", "configurations"], "all cells (triclinic, thin, left-handed), atom placements including faces and atoms outside the cell, cutoffs below and above the cell size, bin sizes, periodicity masks, float and double",
     "The unit tests print the lists of one MoS2 cell at one cutoff; a lost or doubled image needs a particular cell shape, atom position and cutoff.",
     [NB + "neighborList.h", NB + "binLinkedList.h", NB + "structure.h"],
     [{"name": "bin linked list over a supercell", "where": "BinLinkedList::_build, get_neigh_bins, get_neigh_atoms"}, {"name": "supercell extent from the cutoff", "where": "BinLinkedList constructors"}],
     "runtime monitor (brute-force image-sum oracle) + ASan/UBSan",
     "Randomised exploration with an independent oracle; pairs within 1e-9 relative of the cutoff are not judged; cutoffs bounded so that lists stay below a few hundred atoms.",
     observe=["returned neighbour lists mapped to (atom, lattice translation)"])
prop("C02", "Exported neighbour tables describe the neighbour set faithfully",
     "Asking for sorted lists changes only their order: every list is nearest first and holds the same neighbours. The flat tables exported for machine-learned force fields give, for each atom, its index, species and neighbour count, then for each neighbour its home-cell index and the displacement from centre to neighbour, with unused slots holding -1 and zero displacement, and the reported maxima (overall and per species pair) equal the true maxima.",
     ["inputs", "configurations"], "all structures, cutoffs, periodicity masks, table widths from the exact maximum upwards, sorted and unsorted lists",
     "The tests print one structure's tables; they assert neither order, padding nor consistency between the tables.",
     [NB + "neighborList.h"], [{"name": "distance sort", "where": "NeighborList::_build"}, {"name": "export", "where": "NeighborList::find_info4mlff, get_max_num_neigh_atoms_ssss"}],
     "runtime monitor (table invariants, brute-force oracle) + ASan/UBSan",
     "Randomised exploration; table widths smaller than the true maximum are outside the documented contract and not exercised.")
prop("C04", "Cells and supercells conserve the crystal",
     "A structure reports the cell, species and Cartesian coordinates it was given (fractional input is converted), and its heights, projected lengths, vertices and bounding box are those of that cell. Scaling it by integer factors yields each atom once per translation in a block of exactly that size which contains the home cell, with the same species, a cell scaled accordingly, and a bounding box that encloses the atoms, also when scaled again. A supercell identifies its home atoms: the atoms it reports as its own sit at the original positions. A bin list covers that box with bins of the requested size and places every atom in the bin that contains it.",
     ["inputs", "histories"], "all cells, atom sets, coordinate conventions, scaling factors 1..5 per axis, repeated scalings, float and double",
     "The tests scale one cell by a few fixed factors and mostly print the result.",
     [NB + "structure.h", NB + "binLinkedList.h"], [{"name": "replication", "where": "Structure::make_supercell"}, {"name": "home cell index", "where": "Supercell::calc_prim_cell_idx"}],
     "runtime monitor (lattice-translation bijection oracle) + ASan/UBSan",
     "Randomised exploration. Known finding: home atoms of supercells with even, unequal factors.")

exec(open(V + "/tools/props_more.py").read()) if os.path.exists(V + "/tools/props_more.py") else None
P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
py = "/opt/venv/bin/python"
built = [p for p in P if os.path.exists("%s/checks/%s.py" % (V, p["id"]))]
m = {"version": 1, "setup_cmd": py + " -c \"import numpy, torch\"",
     "checks": [{"property": p["id"], "quick_cmd": "%s checks/%s.py --tier quick" % (py, p["id"]), "thorough_cmd": "%s checks/%s.py --tier thorough" % (py, p["id"]),
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in built],
     "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in P if p not in built],
     "notes": "Every check builds what it needs from /repo's working tree in a scratch directory; exit 2 means inconclusive (does not compile, monitor not reached). No hooks were needed in /repo: all monitors observe public interfaces, sanitizers and the allocator."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(built), "claimed")
