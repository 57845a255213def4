"""Writes MANIFEST.json from the registry below; run after changing what is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T_PKG = "TLA+ specification PkgDb: exhaustive TLC model checking, TLC-generated behaviours replayed in the real tools, TLC trace validation of what they did"
N_PKG = ("The property holds on the specification over the small scopes exhaustively; the real pkgadd/pkgrm agree with the specification and with the property's own predicate on every "
         "replayed transition and behaviour (exhaustive for the small scopes in the thorough tier, sampled by TLC beyond). Assumes single commands at a time, the path shapes of the universes, and ids outside one uid unobserved.")
CLAIMS = {}
for i in range(1, 12): CLAIMS["P%02d" % i] = (T_PKG, "model_checking", N_PKG)
T_CR = "TLA+ specification PkgCrash (micro-steps inside a transaction): TLC explores every crash point of every command; every system call of real commands is %s and TLC judges the recorded outcome against the specification"
N_CR = "Every file-changing call of each chosen command is hit; commands and start states come from TLC's exploration and generation (a sample in the quick tier). %s"
CLAIMS["P14"] = (T_CR % "killed at (and writes cut in half)", "model_checking", N_CR % "A kill loses nothing already handed to the kernel (no power failure).")
CLAIMS["P15"] = (T_CR % "made to fail", "model_checking", N_CR % "Faults are injected at the C library boundary; failing attribute changes (mode, owner, times) and failing status queries are not covered.")
CLAIMS["P16"] = ("TLA+ specification PkgQuery (what each query must answer, and the laws that tie the answers together, checked exhaustively by TLC): TLC-generated histories, the real pkginfo asked after each, TLC judges every answer",
  "model_checking", "Databases, archives and questions are samples (about 11000 answers in the quick tier); the library queries (-L, -R, --runtime*) are not covered.")
T_CO = "TLA+ specification PkgConc (commands that lock, read, change and unlock in separate steps): TLC explores every interleaving, real commands are interleaved at their system calls and TLC judges each recorded outcome"
N_CO = "The specification is checked exhaustively for two commands (three in the thorough tier); real interleavings stop one command before one call (and the other before one of its own) for sampled states and commands, plus free races. "
CLAIMS["P12"] = (T_CO, "model_checking", N_CO + "Covers pkgadd, pkgrm and pkginfo.")
CLAIMS["P13"] = (T_CO, "model_checking", N_CO + "Covers pkgadd, pkgrm and pkginfo.")
T_L = "TLA+ specification Ports (levels, closure, dependents) with the level computation as a transition system: TLC explores every small graph; the real commands run on port trees and TLC judges every output"
N_L = "The computation is checked on every graph of three ports (with self and unknown dependencies) and every loop-free-of-self graph of four; outputs are judged on every tree of two ports, a share of those of three and random trees of up to 40 ports. One recipe per port name."
CLAIMS["L01"] = (T_L, "model_checking", N_L)
CLAIMS["L02"] = (T_L, "model_checking", N_L)
T_C = "TLA+ specification Repo (repositories, plans of install, remove, upgrade, sync, purge): TLC checks its laws over every small repository and history, the real cards runs in generated worlds and TLC judges every recorded command"
N_C = "The laws hold on every repository of the small scopes and every history over them; real commands are judged on sampled worlds of up to fifteen packages in up to three collections (about 1700 commands in the quick tier) and histories of up to three commands with the publisher moving on in between. %s"
for i, n in ((1, "Archives named on the command line are not covered."), (2, "Keys and archives are altered, not forged: the cryptography itself is trusted."), (3, ""), (4, ""), (5, "The download-only options of upgrade are not covered."),
             (7, ""), (8, "Archive paths as arguments are not covered."), (9, "Addresses are file: addresses; a transfer that breaks off is represented by truncated and missing files."), (10, "")):
    CLAIMS["C%02d" % i] = (T_C, "model_checking", N_C % n)
CLAIMS["C10"] = (T_C + "; specifications RepoConf (meaning of a configuration file) and Ports with shadowed ports, checked the same way", "model_checking", N_C % "Configurations are sampled (2000 files in the quick tier).")
T_PU = "TLA+ specification RepoPub (what is published, verified, parsed and answered): TLC explores every history of a small publisher and client, the real commands run on generated collections and indices and TLC judges every recorded command"
N_PU = "The laws hold for every history over the small collections; real publications, verifications and queries are sampled (about 7000 commands in the quick tier). %s"
CLAIMS["C06"] = (T_PU, "model_checking", N_PU % "Archives lie directly in the collection's directory; signatures are checked with OpenSSL, which is trusted.")
CLAIMS["C11"] = (T_PU, "model_checking", N_PU % "Patterns are fixed strings with or without anchors, not general regular expressions.")
T_B = "TLA+ specification Build (clean environments, collections, on top of Repo and Ports): TLC checks its laws over every history of a small build service, the real `cards create' builds generated trees with a recording packager and TLC judges every run"
N_B = "The laws hold for every history of up to three ports (thorough tier); real runs are sampled (about 700 runs with up to 9 ports in up to 3 local collections in the quick tier). scripts/pkgmk itself is replaced by a stand-in that publishes prepared archives."
CLAIMS["B01"] = (T_B, "model_checking", N_B)
CLAIMS["B02"] = (T_B, "model_checking", N_B)
T_I = "TLA+ specification RepoCrash (the separate changes inside one cards command, on top of Repo): TLC interrupts every command of every small repository anywhere and repeats it; real cards commands are %s on generated worlds and repeated, and TLC judges what was left and what the repetition did"
N_I = "The laws hold at every interruption point of every command over the small repositories (two interruptions in the thorough tier); real interruptions are sampled (about 4000 in the quick tier). Packages have no shared files here (P14, P15). %s"
CLAIMS["C12"] = (T_I % "killed at (and halfway through) sampled system calls", "model_checking", N_I % "A kill loses nothing already handed to the kernel.")
CLAIMS["C13"] = (T_I % "hit by failing system calls", "model_checking", N_I % "Files of a package that cannot be written are reported but, as documented in the code, do not fail the command.")
CLAIMS["C14"] = ("TLA+ specification RepoConc (several cards commands, each planning, then locking, looking again and changing one package at a time): TLC explores every interleaving of two commands (and finds the laws broken without the lock); real commands are stopped at sampled calls while others run, get signals, and race freely, and TLC judges what was found at each switch", "model_checking",
    "The laws hold for every interleaving of two commands over the small repositories; real overlaps are sampled (about 4000 in the quick tier), one switch there and back at system-call granularity, plus free races of two or three commands. An upgrade is only tried as the second command against a remove or another upgrade holding the lock.")
try:
    import claims; claims.add(CLAIMS)
except ImportError: pass
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMS:
            t, lv, n = CLAIMS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": t, "level": lv, "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the tools are built unmodified from /repo/src and observed from outside (file tree, database, exit status, script logs, an LD_PRELOAD interposer)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")
main()
