"""Writes MANIFEST.json."""
import json
import os

REF = "property-based testing (Hypothesis): drawn histories and settings against an error-tracked reference model"
META = "property-based testing (Hypothesis): "
T = {
    "C01": (REF, "every momentum line cell by cell"),
    "C02": (REF, "every trend average/oscillator cell by cell"),
    "C03": (REF, "ADX, Aroon, Vortex and SAR against step-by-step reference automata"),
    "C04": (REF, "every volatility line cell by cell"),
    "C05": (REF, "every volume line cell by cell"),
    "C06": (REF, "return lines cell by cell, plus the compounding identity"),
    "C07": (META + "metamorphic relation prefix / continued history", "every line and the bulk builder"),
    "C08": (META + "invariant (finite everywhere) plus fill oracle from the reference model's gaps",
            "every line and the bulk builder"),
    "C09": (META + "first-bar table as oracle, presence against the reference model", "every line"),
    "C10": (META + "generated operation sequences in forked processes, differential against fresh objects",
            "all indicator classes, functions, bulk builder, in-place edits by the caller"),
    "C11": (META + "differential function form / object form over generated argument lists", "80 functions, 43 classes"),
    "C12": (META + "differential bulk column / indicator object, documented column table", "six builders"),
    "C13": (META + "metamorphic relation over row labels and integer storage", "every line and the bulk builder"),
    "C14": (META + "metamorphic relation under change of price and volume units", "every line"),
    "C15": (META + "range and order invariants over generated histories", "every bounded line, average and channel"),
    "C16": (META + "independent row filter as oracle over generated frames", "the clean-up helper"),
    "C17": (META + "relations between reported lines, tolerance from the reference model", "20 indicators"),
    "C18": (META + "totality and shape invariants on short histories and large windows", "every line, bulk builder"),
    "C19": (META + "metamorphic relation: suffixes and altered pasts", "every windowed line and running total"),
    "C20": (META + "generated builder call sequences with frame snapshots", "six builders"),
    "C21": (META + "metamorphic relation: reflected history", "every symmetric line"),
    "C22": (META + "generated operation sequences in which the caller edits results, differential against fresh objects",
            "all indicator classes, functions, bulk builder"),
    "C23": (META + "generated concurrent job lists under a short thread switch interval, differential against sequential runs",
            "all indicator classes and the bulk builder; schedules are sampled, not enumerated"),
    "C24": (META + "metamorphic relation over memory layouts, series names, numpy scalars and copy-on-write",
            "every line, function and the bulk builder"),
    "C25": (META + "metamorphic relation: missing rows in front of or inside a history", "every line not anchored to row one"),
    "C26": (META + "generated copy/pickle sequences, differential against fresh objects", "all indicator classes"),
    "C27": (META + "metamorphic relations over parameters and identities between indicators", "39 indicators"),
    "C28": (META + "generated job lists, differential between differently configured processes, state snapshots",
            "all indicator classes, functions and the bulk builder in four process configurations"),
    "C29": (META + "generated operation sequences with injected exceptions at drawn lines, differential against uncut runs",
            "all indicator classes, functions and the bulk builder"),
    "C30": (META + "metamorphic relation (a constant added to every price)", "31 indicators"),
    "C31": (META + "metamorphic relation (last close raised)", "29 indicators"),
    "C32": (META + "metamorphic relation (last high raised or last low lowered)", "17 indicators"),
    "C33": (META + "metamorphic relation (last volume raised)", "9 volume indicators"),
}
NOTE = ("Search, not proof: {what}, over the histories and settings the generators draw (bounded sizes, see "
        "DESIGN.md). Trusts vf/refs.py and vf/spec.py as the statement of the documented behaviour, vf/iv.py's rounding "
        "bounds (cells rounding alone can decide are not judged), pandas/numpy and Hypothesis.")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/selftest.py",
        "checks": [
            {"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
             "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": t, "level": "exploration",
             "level_note": NOTE.format(what=w)} for p, (t, w) in T.items()],
        "not_applicable": [],
        "notes": "No hooks: the library is exercised through its public interface only. Replay a finding with "
                 "'python3 check.py Cxx --replay FILE'. /repo carries 'fix:' commits, listed in known_findings.json.",
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
