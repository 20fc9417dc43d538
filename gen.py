#!/usr/bin/env python3
"""Regenerates checks.json and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

BUNDLE = ("A case is a generated pool of signed documents (root eras with key rotation, timestamps, snapshots, targets and delegated targets, "
          "with faults drawn per document) plus a history of update calls on a TrustedMetadata set at drawn (moving) reference times, driven in lockstep "
          "with the reference set; after every call the outcome and the whole trusted state are compared. Non-trivial: at least two calls, at least one of them accepted.")

# id -> (technique, rule, level note, extra configuration)
T = {
 "C01": ("property-based differential test of threshold verification against a reference verifier (rapid, shrinking)",
  "A case is a generated delegator (root, path or succinct delegation, or neither), key list (all three key types; repeated, aliased, missing or replaced keys), threshold, document and signature set (valid, corrupted, over other content, by other keys, strangers). Non-trivial: the delegator names the role and the document carries at least one signature.", {}),
 "C02": ("stateful model-based testing of root histories against a reference trusted set, plus generated root chains through the client (rapid)",
  BUNDLE + " Chains through the updater: a chain of N roots with key rotation in which at most one link is damaged.", {}),
 "C03": ("stateful model-based testing of version histories against a reference trusted set, plus clients visiting repositories that move versions back or drop roles (rapid)",
  BUNDLE + " Clients: visits to a repository whose signers move versions forward, back or not at all or drop roles, with older documents put into the cache, compared with the reference client.", {}),
 "C04": ("stateful model-based testing over expiry instants and call orders against a reference trusted set, plus clients with documents expired by the real clock (rapid)",
  BUNDLE + " Clients: sessions against a repository whose roles publish expired or valid documents, compared with the reference client.", {}),
 "C05": ("stateful model-based testing of recorded lengths, hashes and versions against a reference trusted set, plus clients given other documents with the right version and signatures (rapid)",
  BUNDLE + " Clients: sessions, with and without the network, in which documents served or cached are replaced by others with the right version and signatures.", {}),
 "C06": ("stateful model-based testing of client refreshes against generated honest repository histories, compared with a reference client (rapid)",
  "A case is a generated honest repository history (publications, key rotations, role and target changes, both consistent-snapshot modes) with a client that refreshes at drawn points of it, keeping or losing its cache; outcome, trusted state, cache files, look-ups and downloads are compared with the repository and a reference client. Non-trivial: the client refreshed at least once from an earlier cached state.", {}),
 "C07": ("stateful adversarial testing: generated hostile mirror responses against a reference client and a recovery refresh (rapid)",
  "A case is a generated repository history plus several client sessions against a mirror that per request answers honestly, stale, replayed, tampered, cross-role, unauthorised, oversized or failing; after every operation the outcome, trusted state and cache files are compared with the reference client, and a final honest refresh must succeed. Non-trivial: at least one response was not the honest one.", {}),
 "C08": ("fault injection over generated caches, write failures and kill points, with a reference client and a file-system observer (rapid)",
  "A case is a generated repository and cache with injected corruption, a failing write (size limit), a kill at a drawn point, or an observed sequence of replacements of cache files. Non-trivial: a cached file was actually damaged, a write actually failed or was interrupted, or at least one replacement was observed.", {}),
 "C09": ("property-based testing of downloads and cache look-ups against generated descriptions and bytes (rapid)",
  "A case is a client and a sequence of look-ups and downloads with generated paths, descriptions (right or wrong in one respect), served bytes near the described ones and existing local files; results and the whole directory tree are compared with the model. Non-trivial: at least one download, or at least two distinct paths stored.", {}),
 "C18": ("model-based testing of request sequences: every request of generated client sessions compared with a reference client (rapid)",
  "A case is a generated configuration (limits, bounds, base addresses, prefixing), repository and cache; the exact sequence of requested addresses and size limits of refresh, look-up and download is compared with the reference client. Non-trivial: at least one request beyond the root walk was made.", {}),
 "C20": ("model-based testing of multi-repository look-ups and downloads over a loopback server against a TAP 4 model (rapid)",
  "A case is a map file over one to four generated repositories with agreeing, differing, missing, falsely described and unavailable content, and a sequence of look-ups and downloads; answers, backing repositories, bytes and files are compared with the model. Non-trivial: some look-up reached agreement, or there is more than one repository.", {}),
 "C21": ("property-based testing with adversarial names and a whole-directory-tree observer (rapid)",
  "A case is a client or multi-repository client with generated role, target or repository names made of separators, dot segments, escapes and names of other roles; every file created or changed below a scratch directory is compared with the allowed set. Non-trivial: at least one generated name was stored.", {}),
 "C22": ("property-based testing of local mode and disabled caching against a reference client, a request log and a directory observer (rapid)",
  "A case is a generated cache state and client session with local mode or disabled caching; requests, files and answers are compared with the reference client or with a caching twin. Non-trivial: a look-up or refresh was made with a non-empty cache, or at least one role was fetched.", {}),
 "C23": ("property-based testing of error classification over generated kinds, messages and wrapping, and of the kind reported for each refusal by a reference set (rapid)",
  "A case is a generated error value (kind, message, wrapping depth and form) matched against every kind, or a refused update whose reported kind is compared with the causes the reference set gives. Non-trivial: the error carries a message or is wrapped, or at least one update was refused.", {}),
 "C10": ("property-based differential testing of look-ups over generated delegation graphs (cyclic, shared, deep, terminating) against a reference walk (rapid)",
  "A case is a generated delegation graph with roles, patterns or bins, terminating flags and target files, a bound on delegated roles, and several looked-up paths, each looked up on several fresh clients; the answer is compared with a reference pre-order walk and has to be the same every time. Non-trivial: the graph has more than two roles.", {}),
 "C11": ("property-based differential testing of path patterns and hash bins against a reference matcher, and membership/listing/assignment agreement (rapid)",
  "A case is a target path with a list of delegations whose patterns are made from that path (segments generalised, dropped, added, escaped), or a succinct delegation with a bit length and prefix whose listing, membership and assignment are compared with the reference for generated paths and names, or a role with generated hash prefixes (true, altered in case, shifted, extended) and a path. Non-trivial: there is at least one pattern, or any bins or prefixes.", {}),
 "C12": ("property-based round-trip testing over generated documents with unrecognised fields at every level, compared with an independent JSON model (rapid)",
  "A case is a generated document of some role (all optional fields present or absent, unrecognised fields and odd strings at every level) in a drawn formatting, parsed from bytes or a file and serialised in every form; the result is compared as JSON, byte by byte between repeats, and by the validity of signatures; or an object built and edited through the API. Non-trivial: the document is longer than 150 bytes.", {}),
 "C13": ("mutation-based property testing of parsing, use of what was parsed, trusted sets, clients and map files; coverage-guided fuzzing in the thorough tier (rapid, go fuzzing)",
  "A case is a generated document (or part, or map file) with one to three values removed, nulled, replaced by another type, spliced, repeated, renamed or deeply nested, or its text changed, parsed as its own or another type into an empty or used receiver and then used in every way; or such a document, correctly signed, given to a trusted set and a client remotely and from its cache; or a valid document at whose every kind of place each of some dozens of replacements is tried in turn. Non-trivial: something was changed, and for clients, one was made.", {"fuzz": ["FuzzC13"]}),
 "C14": ("property-based round-trip and differential testing of key conversion and identifiers against a reference canonical JSON (rapid)",
  "A case is a key of one of the three types with generated unrecognised fields, formatting and field order and at most one change, or public material that is mangled in kind, length or encoding. Non-trivial: the key was changed, or the material was refused, or a conversion was made.", {}),
 "C15": ("metamorphic property-based testing: every single change of the signed part invalidates signatures, reformatting and outside changes do not (rapid)",
  "A case is a generated document signed through the library, then changed at one drawn place of its signed part (value, addition, removal, unrecognised fields included), or reformatted and changed outside it. Non-trivial: the changed document parses, or the signing case completed.", {}),
 "C16": ("stateful model-based testing of key additions and revocations against a reference list per role (rapid)",
  "A case is root or targets metadata (path or succinct delegations or none, with or without key store) and a sequence of additions and revocations with repeated, unknown and shared keys and roles; the whole document is compared with the model after every call, and refused calls must change nothing. Non-trivial: more than one operation.", {}),
 "C17": ("property-based testing of target and metafile descriptions against reference digests, with one aspect changed at a time (rapid)",
  "A case is generated data (or file) with a set of algorithms, described and verified against the same and against other bytes, lengths, digests and algorithms; a metafile with optional length and hashes; or a pair of descriptions compared for equality. Non-trivial: something is recorded, or the pair shares an algorithm.", {}),
 "C19": ("fault injection over generated HTTP responses of a raw loopback server (framing, truncation, stalls, false lengths, endless bodies) with an explicit expected outcome (rapid)",
  "A case is a response played byte by byte by a raw TCP server (framing, status, declared and actual length, cut, stall, drip, endless, early hints, reset, compression) with a limit near the length; the outcome, its error kind, the bytes read and the time taken are checked. Non-trivial: a server was contacted.", {}),
 "C24": ("metamorphic property-based testing: generated histories of instances run alone, interleaved, overwriting the caller's bytes and concurrently (also under the race detector) must leave equal traces (rapid)",
  "A case is two to four generated histories (clients against sibling repositories with equal addresses, names and versions; trusted sets; metadata objects) run alone, in a drawn interleaving, one after the other with every handed-in slice overwritten after each call, and concurrently; after every operation result, trusted state, requests and files are compared with the run alone, and slices and configuration with what was handed in. Further cases repeat one operation on several goroutines against what it gives alone, and verify documents in a drawn order with delegators that give the same names to different keys, against the reference verifier. Non-trivial: at least two instances and more than four operations.",
  {"race": 0.07, "thorough_scale": 15}),
 "C25": ("stateful model-based testing of the repository container against a map of slots (rapid)",
  "A case is a sequence of stores into one or two containers (every slot, odd delegated names, nil and shared objects) with all slots compared with the model after each. Non-trivial: more than one store.", {}),
 "C26": ("stateful model-based testing of the command-line client as a process against a faulty loopback server, with the reference client as oracle (rapid)",
  "A case is a generated repository served over HTTP with drawn faults per request, an initialisation (root from a file or from the repository, good or bad) and up to five fetches in between which the repository evolves; exit status, the metadata folder and the download folder are compared with the reference client after every command. Non-trivial: at least one fetch with a root file in place.", {"cli": True}),
}

# multiples of the base case counts: quick, thorough (1 and 30 unless given)
SCALE = {"C01": (6, 150), "C02": (1.3, 30), "C03": (1.3, 30), "C04": (1.3, 30), "C05": (1.3, 30), "C06": (3, 70), "C07": (1.5, 40), "C08": (1.4, 30), "C09": (2.5, 60),
         "C10": (1.6, 40), "C11": (3, 100), "C14": (1.5, 40), "C18": (3, 70), "C19": (2, 40), "C20": (2, 50), "C21": (1.5, 40), "C22": (2.5, 60), "C23": (1.5, 40),
         "C26": (2, 40)}

LEVEL_NOTE = ("Randomised exploration with an explicit oracle: no violation on the cases counted in the evidence file, nothing is proved beyond them. "
              "Trusts the Go toolchain and standard library (crypto, encoding/json, net/http) and the harness's own reference model in harness/ref, which shares no code with the module.")

NOT_YET = "the check is not built yet"
NOT_APPLICABLE = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    conf, checks, na = {}, [], []
    for p in props:
        i = p["id"]
        if i not in T:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, NOT_YET)})
            continue
        technique, rule, extra = T[i]
        conf[i] = dict({"rule": rule}, **extra)
        conf[i].pop("note", None)
        if i in SCALE:
            conf[i]["quick_scale"], conf[i]["thorough_scale"] = SCALE[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": technique, "level": extra.get("level", "exploration"),
                       "level_note": LEVEL_NOTE + (" " + extra["note"] if "note" in extra else "")})
    json.dump(conf, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: all checks use the exported API from a separate module in harness/."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
