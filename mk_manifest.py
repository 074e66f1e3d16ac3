#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
ENUM = "bounded exhaustive enumeration of "
T = {
 "C01": (ENUM + "all 2^32 inputs on the real encoder", "every i32 value, against a reference encoder and decoder"),
 "C02": (ENUM + "add-sequences of mappings on the real generator", "all sequences up to the stated depth over the stated alphabets, decoded by an independent decoder"),
 "C03": (ENUM + "add-sequences (all orders, duplicates) on the real generator", "all sequences up to the stated depth, compared across orders"),
 "C04": (ENUM + "operation histories (add, set content, serialise) on the real generator", "all histories up to the stated depth, compared with a never-serialised generator"),
 "C05": (ENUM + "mapping shapes and histories with refused calls on the real generator", "all shapes over boundary coordinates, all mixed histories up to the stated depth"),
 "C06": (ENUM + "content-setting histories on the real generator", "all histories up to the stated depth over aliases of the same file under several roots"),
 "C07": (ENUM + "field presence and texts on the real generator and consumer", "all combinations over an alphabet of difficult texts and every character class"),
 "C08": (ENUM + "generated maps, each sent through the real generator and consumer", "all maps up to the stated size over the stated alphabets"),
 "C09": (ENUM + "maps x all query positions on the real consumer against a linear-scan model", "all maps up to the stated size; all positions on and around mappings; all biases"),
 "C10": (ENUM + "maps x all query positions on the real consumer against a linear-scan model", "all maps up to the stated size; all positions on and around originals; all sources and biases"),
 "C11": (ENUM + "maps x all query positions on the real consumer against a linear-scan model", "all maps up to the stated size; all lines and columns on and around originals; all sources"),
 "C12": (ENUM + "maps enumerated in both orders on the real consumer", "all maps up to the stated size, repeated and after other queries"),
 "C13": (ENUM + "maps x histories around span computation on the real consumer", "all maps up to the stated size, 12 histories each, every mapping's span seen by every query"),
 "C14": (ENUM + "query sequences on real consumers, against a fresh consumer", "all query sequences up to the stated depth on 10 documents, plus long repetitions"),
 "C15": (ENUM + "source, root and map URL texts on the real resolver against a reference URL model", "all texts up to the stated number of segments"),
 "C16": (ENUM + "source lists x spellings x lookup orders on the real consumer", "all combinations over the stated spellings, each asked twice in both orders"),
 "C17": (ENUM + "source and contents lists on the real consumer", "all lists up to the stated length"),
 "C18": ("stateless exploration of all task schedules (and bounded preemptions) of the real parallel code under a controlled rayon join", "all schedules of up to 5 (6) sections, one preemption at every allocation"),
 "C19": (ENUM + "indexed maps x all query positions on the real consumer against a per-section model", "all indexed maps over the stated sections and offsets"),
 "C20": (ENUM + "indexed maps x all reverse queries on the real consumer against a per-section model", "all indexed maps over the stated sections and offsets, before and after spans"),
 "C21": (ENUM + "indexed maps x enumeration histories on the real consumer", "all indexed maps over the stated sections and offsets, several enumeration histories"),
 "C22": (ENUM + "indexed maps' source and contents lists on the real consumer", "all combinations over the stated sections"),
 "C23": (ENUM + "sorted lists, needles and biases on the real search", "all sorted lists up to the stated length"),
 "C24": (ENUM + "operation sequences on the real set against a list model", "all sequences up to the stated depth, every observation after every step"),
 "C25": (ENUM + "operation sequences on the real list, and of all pairs for the comparison", "all sequences up to the stated depth; all pairs of field combinations"),
 "C26": (ENUM + "documents and opening routes on the real constructors", "all combinations of field forms; every prefix of documents; all routes compared"),
 "C27": (ENUM + "pairs of paths on the real path functions against a reference URL model", "all pairs up to the stated number of segments"),
 "C28": (ENUM + "mapping texts on the real parser against an independent decoder", "all texts up to the stated length over digits, separators and invalid characters"),
 "C30": ("exhaustive exploration of the interleavings of two real objects' operations, on one thread and (under a controlled scheduler, with preemptions at allocations) on two", "all step sequences up to the stated depth on all pairs of near objects; all interleavings of short programs on two threads; one preemption at a grid of allocations"),
 "C29": (ENUM + "lookups with boundary coordinates on the real consumer", "all lookups over boundary coordinates incl. integer extremes"),
}
NOTE = " Every explored execution runs the real crate built from /repo's working tree; a complete run means every member of the stated space was executed. Trusted: the reference model in mc/src, rustc, and the third-party crates as linked."
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
        "technique": t, "level": "model_checking", "level_note": n[0].upper() + n[1:] + "." + NOTE,
    } for p, (t, n) in T.items()],
    "not_applicable": [],
}, open("MANIFEST.json", "w"), indent=1)
