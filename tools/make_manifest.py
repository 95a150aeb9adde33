"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
T = {
    "C01": ("reference-model monitor of the extractor under hostile byte streams",
            "every extracted message is compared with an independent scanner; all streams explored, none proved"),
    "C02": ("metamorphic history checker over chunkings, deliveries checked online per feed",
            "every two-way split of the explored streams, many random partitions"),
    "C03": ("online account of the five statistics after every call, log checker, injected aborts",
            "the account is exact after each call; abort points sampled at block boundaries"),
    "C04": ("checksum monitor against bitwise CRC, error injection into frames",
            "single-bit errors exhaustive per frame explored, bursts and double errors enumerated or sampled"),
    "C05": ("assertion monitor on every bit-field extraction against big-integer arithmetic",
            "all offset/width pairs of small buffers enumerated, random contents"),
    "C06": ("reference-model monitor of bare decoding results and JSON-B files", "all 49 message types, random and extreme masks and values"),
    "C07": ("reference-model monitor of scaled decoding results and JSON files", "all 49 message types, exact rational oracle"),
    "C08": ("invalid-marker injection with reference-model monitor, JSON and MARGO", "each marker on each field kind, adjacent codes, combinations"),
    "C09": ("reference-model monitor of ephemeris results and files", "each field walked over extremes, random rest"),
    "C10": ("reference-model monitor of base-station results and files", "all string lengths, counts and bias masks"),
    "C11": ("fault injection into payloads (truncation, extension, inconsistent masks) with history checker",
            "every truncation length of the explored messages"),
    "C12": ("crash, abort and termination monitor (CPU watchdog) under fuzzed input", "terminates and well-formed on all inputs explored"),
    "C13": ("product checker over JSON trees, also after injected interruptions", "strict parser, record-by-record reference"),
    "C14": ("product checker over MARGO trees against reference rows", "rows, headers, columns, NaN positions"),
    "C15": ("reference-model monitor of MARGO values", "exact rational oracle rounded to the printed precision"),
    "C16": ("monitor of MARGO row times over the whole week including roll-over", "all constellations, boundary and random epochs"),
    "C17": ("differential trace checker JARGO vs MARGO + JSON", "byte comparison of product trees"),
    "C18": ("differential trace checker over configurations", "every option alone and in combinations"),
    "C19": ("file-system snapshot monitor, batch vs single runs", "whole scratch tree compared; one known finding (same stem)"),
    "C20": ("history checker: decode after arbitrary histories vs fresh converter, snapshots of returned results",
            "in-process histories up to thousands of messages"),
    "C21": ("resource monitor: reachable bytes, traced memory, descriptors", "bounds measured along streams of MBs"),
    "C22": ("assertion monitor on compare/copy against an independent comparator", "all record classes, single-field mutations"),
    "C23": ("monitor of prompt, selection and converted set against directory listings", "scratch directories, odd names"),
    "C24": ("fault injection at every creation, read, write and close step, log and product checker",
            "every product and folder of explored batches as failing one"),
    "C25": ("table monitor through the public lookups and through decoding", "exhaustive over numbers, signals and codes"),
    "C26": ("process-level monitor of exit code, output and file-system effects under generated command lines",
            "option spellings, orders and malformed lines sampled; three entry ways compared"),
    "C27": ("call-trace checker on stand-in components with injected failures", "random registrations and message sequences"),
    "C28": ("log checker against the reference account of the stream", "every message of the explored streams"),
    "C29": ("CPU-time monitor along streams", "slices of streams of MBs compared, threshold 3x confirmed three times"),
}
LEVEL = {"C24": "fault_enumeration"}
NOTE = ("No violation on the executions explored (numbers in the evidence file): {}. Trusts the independent reference in "
        "rtmon/ref.py and CPython.")

doc = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
         "evidence_file": f"evidence/{p}.json", "technique": MON + t, "level": LEVEL.get(p, "exploration"),
         "level_note": NOTE.format(n)}
        for p, (t, n) in T.items()
        if os.path.exists(os.path.join(HERE, "rtmon", "checks", p.lower() + ".py"))],
    "not_applicable": [],
    "notes": "Pure Python, nothing to compile: checks import /repo's working tree directly. No hooks in /repo. "
             "Known finding: see known_findings.json.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
