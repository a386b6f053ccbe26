#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
T = {
 "C01": (MC, "explicit-state search over the real writer's states, all 867x867 style transitions, against an SGR terminal model; exhaustive bounded histories",
         "Complete for all style transitions of both writers (the state space closes); histories, texts and lengths are exhaustive within stated bounds. Trusts the terminal model and that the writer's derived Debug output shows its state (stateless sections do not)."),
 "C02": (MC, "explicit-state search over the real writer's states, all 867x867 style transitions, against an HTML reader; exhaustive bounded histories",
         "Complete for all style transitions; histories, texts and lengths exhaustive within bounds. Trusts the HTML reader and its colour table."),
 "C03": (MC, "exhaustive enumeration of all strings over a markup alphabet, their splits and style contexts on the real writer, output read back",
         "All strings to length 5 over 13 letters, all splits of those of length 4, every Unicode scalar, every position of a special character in texts to 300 bytes."),
 "C04": (MC, "explicit-state search over the real writer's states plus exhaustive bounded histories, output compared with the concatenation",
         "Complete for the writer's single state; histories, texts and lengths exhaustive within bounds."),
 "C06": (MC, "bisimulation check of two real writers fed the same styled characters in different chunks, closed over all 867 styles; exhaustive chunkings of bounded texts",
         "Closed for single steps from every reachable pair; all chunkings and up to two inserted empty writes for bounded texts."),
 "C05": (MC, "exhaustive enumeration of formatter programs, each rendered through all six outputs on the real code and compared with one denotation",
         "All programs of bounded size over a fixed alphabet, all 867x867 style pairs, depths and widths within bounds."),
 "C07": (MC, "exhaustive enumeration of all restylings on all 867 styles on the real code against a reference interpreter",
         "Complete for Style, StyleDiff, Foreground, Background, Intensity, unit, options, references and boxes; pairs, triples and slices complete over a reduced element set."),
 "C08": (MC, "exhaustive check of all 867x867 pairs of styles on the real code",
         "Complete: every pair of styles is checked; nothing is left out."),
 "C09": (MC, "exhaustive enumeration of bounded write histories on the real attributed string, replayed in several contexts, against the list of written characters",
         "All style pairs, all histories to a bounded depth over 16 writes, run lengths and counts, every Unicode scalar."),
 "C10": (MC, "exhaustive enumeration of nested formatter programs and of enter/leave/write sequences on the real formatter against a denotational reference",
         "All programs of bounded size over a fixed alphabet, all scope sequences of bounded depth, depths and widths within bounds."),
 "C11": (MC, "exhaustive enumeration of formatter programs and write histories, each run through every entry point on the real code and compared",
         "All programs of bounded size over a fixed alphabet, all entry points of all outputs."),
 "C18": (FE, "exhaustive exploration of sink answers: every sequence of short, interrupted and full answers at every call of every bounded operation history on the real writers",
         "All answer sequences within the bound on deviations, for all operation histories within the bound; longer runs of interruptions by uniform policies."),
 "C19": (FE, "exhaustive exploration of failure points: every call of the sink failing with every error kind, for every bounded history and formatter program on the real code",
         "Every failing position and error kind for all histories and programs within bounds."),
 "C20": (FE, "exhaustive exploration of sink answers for callers that retry low-level writes, output interpreted by a terminal model",
         "All answer sequences (partial, interrupted, blocked, zero, failing) within the bound on deviations, also inside escape codes."),
 "C21": (MC, "exhaustive enumeration of operation sequences through every wrapper on an instrumented writer, traces compared",
         "All operation sequences of bounded depth through all wrappers and all two-level compositions of them."),
 "C24": (MC, "exhaustive exploration of all interleavings of operation sequences on several real writers, on one and on two threads under a controlled scheduler",
         "All interleavings of bounded sequences at operation granularity; the library has no shared state, locks or atomics to preempt inside of."),
 "C12": (MC, "exhaustive enumeration of format specifications (all flag combinations x traits), expanded by the real macro and run on values of many types; texts compared with std::format!",
         "All combinations of alignment, sign, alternate form, zero, and sampled widths and precisions, for all traits. Values are a fixed list including one that shows every option of its formatter."),
 "C13": (MC, "exhaustive enumeration of attribute lists x kinds of placeholder x inherited styles, expanded by the real macro and compared with the aspects named",
         "All lists of up to two attributes (three in the thorough tier) and all 867 contexts for single ones."),
 "C14": (MC, "exhaustive enumeration of piece sequences x argument lists, expanded by the real macro and compared with a reference resolution and std::format!",
         "All sequences to a bounded length over fixed alphabets; spellings, identifiers and expressions from fixed lists."),
 "C15": (MC, "exhaustive enumeration of strings over the specification alphabet and of argument lists, each given to the real macro and the compiler; verdicts compared with a reference grammar",
         "All strings to a bounded length over the specification alphabet (by token), all argument lists to a bounded size. Trusts the reference grammar, which is cross-checked with std's own verdict where the two languages overlap."),
 "C17": (MC, "exhaustive enumeration of formatter programs and write histories on the real code under a counting global allocator",
         "All programs of bounded size over a fixed alphabet, through all allocation-free outputs."),
 "C22": (MC, "exhaustive enumeration of the 64 feature combinations (and those of each part on its own): built, items decided by the compiler, outputs compared, needs decided by linking a bare program",
         "Complete over the configurations; the items and renderings probed are a fixed list covering the documented interface."),
 "C23": (MC, "exhaustive enumeration of call sites: every name of the prelude, crate and library namespaces x every namespace it can be shadowed in x every macro, compiled and run against the undisturbed result",
         "Complete over the listed names and kinds of definition, one (quick) or several (thorough) at a time."),
 "C25": (MC, "exhaustive enumeration of histories, copying points and pairs of continuations on the real writers, compared with runs that never copy",
         "All histories of bounded length over 11 writes, all pairs of continuations, six ways to make and use a copy, all 867 styles, long histories."),
 "C26": (FE, "exhaustive exploration of failure points of displayed values: every write of every value failing, in every bounded formatter program, through every function returning a string",
         "All programs of bounded size over a fixed alphabet with a failing value at every place; all placeholder kinds; deep and wide values."),
 "C27": (FE, "exhaustive exploration of failure points: every write of every displayed value failing with an error or a panic, in every bounded formatter program, on every real writer, followed by further writes and finishing",
         "All programs of bounded size over a fixed alphabet with a failing leaf at every place; fixed sets of writes before and after; deep and wide values."),
 "C28": (MC, "exhaustive enumeration of byte strings, cuts into buffers and style sequences on the real byte-stream writers, parsed by a terminal model",
         "All 1- and 2-byte buffers, all buffers of bounded length over 16 chosen bytes with all cuts, all 867 styles, a set of long buffers."),
 "C29": (MC, "exhaustive enumeration of all ordered pairs of colours, intensities, styles and style differences on the real types",
         "Exhaustive: 867 styles and 1296 differences squared, in seven forms of comparison; all default values."),
 "C30": (MC, "exhaustive enumeration of all style changes and all bounded histories on the real writers; the markup emitted is counted code by code",
         "All 867 x 867 changes on every writer, all histories of bounded length over 8 styles, long histories and texts."),
 "C16": (MC, "exhaustive enumeration of usage patterns of logged arguments, expanded by the real macro; evaluation logs and use counts compared with a reference",
         "All patterns to a bounded length and number of arguments, rendered zero to three times."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in T:
            level, tech, note = T[i]
            m["checks"].append({
                "property": i, "quick_cmd": f"VERIF_TIER=quick python3 run.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": tech, "level": level, "level_note": note})
        else:
            m["not_applicable"].append({"property": i, "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
