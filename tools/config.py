"""Per-property configuration of the checks (see run.py)."""
LEVEL = "exploration"

PBT = "property-based testing (rapid): "
N = "No violation in the generated cases of the run (counts, rule and samples in the evidence file); "



def prepare_c28(work, repo, verif, goenv):
    """rlp/rlpgen is a main package: its test file is replaced through an overlay."""
    import json, os, shutil
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": {os.path.join(repo, "rlp/rlpgen/gen_test.go"): os.path.join(verif, "harness/c28/c28_test.go.txt")}}, fh)
    h = os.path.join(verif, "harness")
    # x/tools v0.5.0 crashes in packages.Load under this toolchain; the harness
    # builds the command against the cached newer version.
    mod = os.path.join(work, "go.mod")
    with open(mod, "w") as fh:
        fh.write(open(os.path.join(h, "c28/go.mod.txt")).read().replace("=> /repo", "=> " + repo))
    shutil.copy(os.path.join(h, "c28/go.sum.txt"), os.path.join(work, "go.sum"))
    return ["-overlay", ov, "-modfile=" + mod, "flychain/rlp/rlpgen"], h, {}


def salvaged(pkg, test, gen=None, standins=None):
    """The package is unfinished in the tree and does not compile: a copy that is completed just enough to
    compile (harness/salvage), with the names the tests use, is put in its place through an overlay, together with the in-package test."""
    def prepare(work, repo, verif, goenv):
        import json, os, shutil, subprocess, sys
        h = os.path.join(verif, "harness")
        mod = os.path.join(work, "go.mod")
        with open(mod, "w") as fh:
            fh.write(open(os.path.join(h, "go.mod")).read().replace("=> /repo", "=> " + repo))
        shutil.copy(os.path.join(h, "go.sum"), os.path.join(work, "go.sum"))
        out, tool, env = os.path.join(work, "salvaged"), os.path.join(work, "salvage"), dict(goenv(), SALVAGE_NAMES=os.path.join(h, os.path.basename(pkg) + "/names.txt"))
        for cmd in (["go", "build", "-o", tool, "./salvage"], [tool, "flychain/" + pkg, os.path.join(repo, pkg), out] + ([os.path.join(h, standins)] if standins else [])):
            p = subprocess.run(cmd, cwd=h, env=dict(env, GOFLAGS="-mod=readonly -modfile=" + mod),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode != 0:
                raise RuntimeError("%s: %s" % (cmd, p.stdout.decode(errors="replace")[-3000:]))
        if gen:
            sys.dont_write_bytecode = True
            sys.path.insert(0, os.path.join(h, os.path.dirname(gen)))
            g = __import__(os.path.basename(gen)[:-3])
            sys.path.pop(0)
            with open(os.path.join(work, "generated.go"), "w") as fh:
                fh.write(g.generate(os.environ.get("VERIF_SEED", "1")))
        rep = {os.path.join(repo, pkg, f): os.path.join(out, f) for f in sorted(os.listdir(out))}
        for f in sorted(os.listdir(os.path.join(repo, pkg))):  # no other file of the package takes part
            if f.endswith(".go"):
                rep.setdefault(os.path.join(repo, pkg, f), "")
        for i, t in enumerate(test if isinstance(test, list) else [test]):
            rep[os.path.join(repo, pkg, "zz_verif%d_test.go" % i)] = os.path.join(h, t)
        if gen:
            rep[os.path.join(repo, pkg, "zz_verif_gen_test.go")] = os.path.join(work, "generated.go")
        ov = os.path.join(work, "overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": rep}, fh)
        return ["-overlay", ov, "-modfile=" + mod, "flychain/" + pkg], h, {}
    return prepare


CHECKS = {
    "C01": dict(pkg="c01", src=["common/hexutil"], race=True,
                technique=PBT + "round trip and reference decoder over generated byte strings and texts",
                note=N + "oracle: independent hex reference decoder; trusts encoding/json for quoting."),
    "C02": dict(pkg="c02", src=["common/hexutil"], race=True,
                technique=PBT + "round trip and reference number parser over generated quantities and texts",
                note=N + "oracle: independent quantity parser on math/big; error kinds are compared with errors.Is / text."),
    "C03": dict(pkg="c03", src=["common/types.go", "common/bytes.go", "common/hexutil"], race=True,
                technique=PBT + "metamorphic agreement of representations plus reference parser",
                note=N + "oracle: byte-slice model of crop/pad and an independent hex reader."),
    "C04": dict(pkg="c04", src=["common/types.go", "common/bytes.go", "common/hexutil"], race=True,
                technique=PBT + "reference EIP-55 implementation over generated addresses, casings and verbs",
                note=N + "oracle: EIP-55 computed in the harness with its own Keccak-256."),
    "C05": dict(pkg="c05", src=["common/bytes.go", "common/hexutil"], race=True,
                technique=PBT + "algebraic laws and alias checks over generated slices and strings",
                note=N + "oracle: direct models; backing arrays are compared before and after."),
    "C06": dict(pkg="c06", src=["common/math", "common/big.go"], race=True,
                technique=PBT + "reference arithmetic (math/big) over boundary-biased integers",
                note=N + "oracle: math/big."),
    "C07": dict(pkg="c07", src=["common/math"], race=True,
                technique=PBT + "reference parser and round trip over generated numerals",
                note=N + "oracle: independent numeral reader; signed texts are outside the statement."),
    "C08": dict(pkg="c08", src=["common/mclock"],
                technique=PBT + "model-based histories of the simulated clock; system clock under testing/synctest",
                note=N + "oracle: list model of pending timers; goroutine schedules are sampled, not enumerated."),
    "C09": dict(pkg="c09", src=["common/mclock"],
                technique=PBT + "model-based histories against a deadline model",
                note=N + "oracle: earliest-deadline model; early or repeated notifications for superseded deadlines are allowed."),
    "C10": dict(pkg="c10", src=["event"],
                technique=PBT + "stateful histories against a subscription model, both feed kinds",
                note=N + "oracle: multiset model of subscriptions; histories run inside testing/synctest bubbles so blocking is decided exactly."),
    "C11": dict(pkg="c11", src=["event"], race=True,
                technique=PBT + "generated concurrent histories (synctest + race detector) against delivery invariants",
                note=N + "schedules are sampled by generated delays and the race detector is on; liveness is decided by synctest deadlock detection."),
    "C12": dict(pkg="c12", src=["event"], race=True,
                technique=PBT + "model-based and concurrent histories (synctest + race detector)",
                note=N + "oracle: subscription-list model."),
    "C13": dict(pkg="c13", src=["event"], race=True,
                technique=PBT + "generated producer/unsubscribe schedules (synctest fake time + race detector)",
                note=N + "oracle: timeline model in fake time."),
    "C14": dict(pkg="c14", src=["event"], race=True,
                technique=PBT + "generated attempt-outcome scripts in synctest fake time against a timeline model",
                note=N + "oracle: timeline model of attempts and pauses; the real-clock reset after a slow attempt is not exercised."),
    "C15": dict(pkg="c15", src=["event"], race=True,
                technique=PBT + "model-based histories, sequential and concurrent (synctest + race detector)",
                note=N + "oracle: set model of tracked subscriptions."),
    "C16": dict(pkg="c16", src=["crypto/sha3/sha3.go", "crypto/randentropy"], race=True,
                technique=PBT + "differential against a bitwise reference Keccak; stateful Write/Sum/Reset histories",
                note=N + "oracle: straightforward Keccak-f[1600] in the harness, itself pinned to published digests."),
    "C17": dict(pkg="c17", src=["crypto/curve.go"], race=True,
                technique=PBT + "differential against affine group law, with special-case point generators",
                note=N + "oracle: affine arithmetic on math/big with coordinates in [0,P)."),
    "C18": dict(pkg="c18", src=["crypto/curve.go", "crypto/randentropy"], race=True,
                technique=PBT + "fault-injecting entropy readers, reference scalar multiplication, round trip",
                note=N + "oracle: affine reference; entropy consumption is recorded by the injected reader."),
    "C19": dict(pkg="c19", src=["crypto/mnemonic.go"], race=True,
                technique=PBT + "round trip and reference encoder over generated hex messages",
                note=N + "oracle: Electrum encoding in the harness; the word list is pinned by its SHA-256."),
    "C20": dict(pkg="c20", src=["log/format.go"], race=True,
                technique=PBT + "parse-back oracle over generated records (logfmt and terminal formats)",
                note=N + "oracle: independent line parser and a table of expected value texts; the message position of the terminal format is compared, not parsed, since raw and quoted messages can coincide."),
    "C21": dict(pkg="c21", src=["log/format.go"], race=True,
                technique=PBT + "reference digit grouping over boundary-biased integers of every type",
                note=N + "oracle: math/big decimal text with separators inserted by the harness."),
    "C22": dict(pkg="c22", src=["log/format.go"], race=True,
                technique=PBT + "parse-back through encoding/json over generated records and configurations",
                note=N + "oracle: JSON parsed back and compared with a table of expected members; keys that collide with the record's key names are skipped."),
    "C23": dict(pkg="c23", src=["log/logger.go", "log/root.go", "log/handler_go14.go"],
                technique=PBT + "stateful histories over logger trees against a context and handler model",
                note=N + "oracle: tree model of contexts and effective handlers; critical records run in a child process."),
    "C24": dict(pkg="c24", src=["log/handler.go"],
                technique=PBT + "generated handler trees, records and failure scripts against an interpreter",
                note=N + "oracle: interpreter of the tree; additions made for an earlier leaf may be visible at later leaves of the same record, as the code shares the record."),
    "C25": dict(pkg="c25", src=["log/handler.go", "log/handler_go14.go", "log/syslog.go"], race=True,
                technique=PBT + "generated concurrent workloads and injected write faults, race detector, stream parse-back",
                note=N + "schedules are sampled (yielding writers, race detector on); buffered and channel handlers run in synctest, so blocking is decided exactly."),
    "C26": dict(pkg="c26", src=["log/handler_glog.go"], race=True,
                technique=PBT + "stateful histories of settings and records against a reference path matcher",
                note=N + "oracle: component-wise path matcher written from the documentation; the call site's path text comes from go-stack; negative verbosities and trace locations padded with spaces are not generated."),
    "C27": dict(pkg="c27", src=["rlp/internal/rlpstruct"], race=True,
                technique=PBT + "reference tag rules over generated field lists",
                note=N + "oracle: the rules as predicates per field; with several errors in one struct any of the offending fields may be named."),
    "C28": dict(pkg="c28", src=["rlp/rlpgen/gen.go", "rlp/rlpgen/types.go"], prepare=prepare_c28, shrink="30s", mult=30,
                env={"C28_TESTDATA": "$VERIF/harness/c28/testdata"},
                technique=PBT + "generated struct types: generated code is compiled and compared with a reflection codec on generated values and inputs",
                note=N + "oracle: an independent reflection encoder/decoder; package rlp is absent from the tree, so the code is compiled against a runtime with go-ethereum's contract (Raw returns RawValue)."),
    "C29": dict(pkg="c29", src=["common/compiler"], race=True,
                technique=PBT + "documents built in both formats from one model and parsed back; corrupted documents",
                note=N + "oracle: the generated contracts; new-format documentation is always an array, an object or absent, since a document whose ABI and docs are all strings or null is indistinguishable from the old format."),
    "C30": dict(pkg="c30", src=["common/size.go", "common/format.go", "common/path.go", "common/debug.go", "common/test_utils.go"], race=True,
                technique=PBT + "reference formatters, fake-time ages and JSON files with an error at a known place",
                note=N + "oracle: reference formatters; where the file ends too early, any line from the last one with content to the last one is accepted; paths below a regular file and dangling links are not generated."),
    "C31": dict(pkg="cmdtest", src=["internal/cmdtest"], race=True,
                prepare=salvaged("internal/cmdtest", "cmdtest/c31_test.go.txt"),
                technique=PBT + "generated command scripts run as child processes, with histories of expectations against a model of their output",
                note=N + "oracle: the script's own output; the package is unfinished, so a copy with an empty NewTestCmd is run (DESIGN.md). One call site is a known finding: ExpectRegexp panics on every match."),
    "C32": dict(pkg="rpc", src=["rpc/types.go"], race=True, prepare=salvaged("rpc", "rpc/c32_test.go.txt"),
                technique=PBT + "reference parser over generated JSON parameters, write-back round trip",
                note=N + "oracle: independent parser; package rpc is unfinished, so a copy completed just enough to compile is run (DESIGN.md); 0X prefixes, objects with neither member and used destinations are left open."),
    "C33": dict(pkg="rpc", src=["rpc/service.go"], race=True, prepare=salvaged("rpc", "rpc/c33_test.go.txt", gen="rpc/gen_receivers.py"),
                technique=PBT + "generated receiver types (source generated per seed), registration histories and calls against a registry model",
                note=N + "oracle: registry model computed from the drawn signatures; package rpc is unfinished, so a copy completed just enough to compile is run (DESIGN.md); result types that implement error and service names with an underscore are not generated."),
    "C34": dict(pkg="rpc", src=["rpc/json.go", "rpc/errors.go"], race=True, prepare=salvaged("rpc", "rpc/c34_test.go.txt"),
                technique=PBT + "reference classification over messages with generated members, answers decoded and compared member by member",
                note=N + "oracle: classification computed from the drawn members; package rpc is unfinished, so a copy completed just enough to compile is run (DESIGN.md); answers to messages without an id and data that has no JSON form are left open."),
    "C35": dict(pkg="rpc", src=["rpc/subscription.go"], race=True, prepare=salvaged("rpc", ["rpc/c35_test.go.txt", "rpc/conn_test.go.txt"], standins="rpc/standins.go.txt"),
                technique=PBT + "generator statistics, stateful notifier and client subscription histories (synctest + race detector) against queue models",
                note=N + "oracle: queue models; a generator has 2^31 starting points, so up to five equal first ids among 20000 generators are accepted; package rpc is unfinished, so a copy completed just enough to compile is run (DESIGN.md), where the unsubscribe call to the server is recorded, not sent."),
    "C36": dict(pkg="rpc", src=["rpc/handler.go", "rpc/client.go", "rpc/server.go"], race=True,
                prepare=salvaged("rpc", ["rpc/c36_test.go.txt", "rpc/conn_test.go.txt"], standins="rpc/standins.go.txt"),
                technique=PBT + "stateful histories of a connection's bookkeeping (synctest + race detector) against request, subscription and batch models",
                note=N + "oracle: models of pending requests, subscriptions and batches; package rpc is unfinished, so a copy completed just enough to compile is run (DESIGN.md): the dispatch of calls and batches to methods does not exist yet and is not covered."),
}

NOT_APPLICABLE = {}

# Thorough tier: properties of these tests are also driven by Go's coverage-guided fuzzer.
FUZZ = """
C01 RoundTrip AnyInput NonString
C02 Decode Encode NonString
C03 Representations Construct Reject
C04 AddressPrinting HashPrinting Mixedcase
C05 PadTrimCopy Hex ParseHexOrString
C06 Reduce Exp Bytes MinMaxPow
C07 Parse RoundTrip
C09 Alarm
C16 Digest History
C17 Add256 Mul224 Law160 On192
C18 GenerateKey Marshal EntropyFixed
C19 RoundTrip Groups
C20 Logfmt Terminal
C21 Standalone InRecords BigArgumentsUnchanged
C22 JSON Ordered
C23 Tree Levels
C24 Trees Detached
C26 History
C27 DefaultNil ProcessFields
C29 Parse OldAnyValue Broken ContractJSON
C30 StorageSize PrettyDuration PrettyAge LoadJSON Paths
C32 Number NumberOther WriteBack OrHash
C34 Classify Response Errors
"""
for _l in FUZZ.split("\n"):
    if _l:
        CHECKS[_l.split()[0]]["fuzz"] = ["Test" + n for n in _l.split()[1:]]

# Quick tier: more cases where they are cheap.
for _q, _ids in ((3, "C05 C06 C08 C09 C10 C11 C12 C13 C14 C15 C23 C24"), (2, "C01 C02 C03 C07 C19 C21 C30 C32 C36")):
    for _i in _ids.split():
        CHECKS[_i].setdefault("qmult", _q)
