"""Which functions decide which property.

functions: verified against their contracts in /verif/contracts (unit, function);
bounded: what is only run by the replay harness (never counted as proved).
"""
COMMON_TRUST = [
    "pyvc (the verification condition generator in /verif/pyvc) and its library contracts for Python built-ins, str, list, dict, set, datetime, pathlib and os",
    "z3 4.x (python bindings) and cvc5 1.1.2 as back ends",
    "await is treated as a plain call, asyncio.gather as running its arguments one after the other",
    "containers held in object fields have value semantics (no aliasing of the containers themselves between fields)",
    "datetimes and timedeltas are exact real numbers; floats are real numbers",
]

SC = "contracts.sched"
RV = "contracts.revs"
HI = "contracts.hist"
SP = "contracts.specs"
CK = "contracts.chunked"
EX = "contracts.expire"
ST = "contracts.streams"
IM = "contracts.images"
CE = "contracts.ceph"
DF = "contracts.diffs"
GA = "contracts.garbage"
PU = "contracts.purge"
JO = "contracts.jobs"
PE = "contracts.peers"
CT = "contracts.client"
RE = "contracts.reports"
PL = "contracts.pulls"
DU = "contracts.durations"
CL = "contracts.cli"
AP = "contracts.api"
BA = "contracts.backup"
LE = "contracts.leader"
CO = "contracts.config"
JOB, CMD, CSRC = "daemon.scheduler:Job.", "cli:Command.", "source:CmdLineSource."
SRC = "rbd:RBDSource."
RBD = "rbd:CephRBD."
FILE, CHUNK, STORE = "rbd.chunked.file:File.", "rbd.chunked.chunk:Chunk.", "rbd.chunked.store:Store."
CHUNKS = [(CK, "rbd.chunked.chunk:hash"), (CK, STORE + "chunk_path"), (CK, CHUNK + "_read_existing"), (CK, CHUNK + "read"), (CK, CHUNK + "write"), (CK, CHUNK + "flush")]
FILES = lambda *n: [(CK, FILE + x) for x in n]
CK_TRUST = ["lzo, mmh3 and binascii as uninterpreted functions: decompression undoes compression, and no two chunks have the same hash", "io.BytesIO as a byte buffer with a position", "the JSON text of a map is read as the map, and no proper part of it is a map"]
CK_ASSUME = ["no hash collisions", "termination is not proved", "the map of an image lies outside its chunk store", "no other process changes the store at the same time (C17)"]

ST_ASSUME = ["files behave as unbuffered streams: reading returns what was written; truncating a regular file succeeds", "fallocate punches the hole it is asked for or fails without effect", "report_status drives the generator it decorates"]
IM_ASSUME = ["an open image behaves as the stream of its bytes (contracts of C01, C02)", "backy-extract restores the image it is given if it exits with 0"]
CE_ASSUME = ["mapping and unmapping images (RBDClient.map, unmap): the device shows the bytes of the snapshot mapped", "the rbd and ceph commands: snapshots exist after a successful create and are gone after a successful remove; others may create snapshots, none removes backy's", "Consul as a key-value store; requests that can be read have vm and snapshot"]
DF_ASSUME = ["rbd export-diff that exits with 0 prints the difference between the two snapshots (RBD diff v1)"]
GA_ASSUME = ["the map read from a map file depends on the file's bytes only", "names of metadata files, images, chunks and lock files differ", "report_status drives the generator it decorates"]
BA_ASSUME = ["backups: an open image is the stream of its bytes and is published when it is left (C01, C03), or leaving it fails; errors of the callees other than BackendException are represented by OSError and CalledProcessError",
             "backups: complete and trusted local revisions had images equal to their snapshots before (induction hypothesis); incomplete ones have been cleaned; the new revision is TRUSTED, on disk, and has no image yet",
             "backups: lock files exist; names of links, locks, images and metadata files differ; UUIDs do not contain 'backy-'"]
PROPS = {}
# proofs with more than a hundred paths
LONG = {(BA, "rbd:RBDSource.backup")}


def prop(id, functions=(), bounded=(), trusted=(), assumptions=(), explanation=""):
    PROPS[id] = {
        "functions": list(functions), "bounded": list(bounded), "trusted": list(trusted), "assumptions": list(assumptions),
        "explanation": explanation, "level": "proof" if functions else "exploration",
    }


prop("C01", functions=CHUNKS + FILES("__init__", "_flush_chunks", "_current_chunk", "seek", "tell", "read", "write", "truncate", "flush", "close"), trusted=CK_TRUST, assumptions=CK_ASSUME,
     bounded=["File, Chunk, Store against flat files"], explanation="random operation sequences on chunked images compared with flat files")
prop("C02", functions=CHUNKS[:4] + FILES("__init__", "_current_chunk", "read"), trusted=CK_TRUST, assumptions=CK_ASSUME,
     bounded=["Chunk._read_existing, File.__init__ with damaged data"], explanation="damaged chunks and maps are never read as data")
prop("C03", functions=CHUNKS[:2] + CHUNKS[5:] + FILES("_flush_chunks", "flush", "close"), trusted=CK_TRUST, assumptions=CK_ASSUME,
     bounded=["Chunk.flush, File.flush at every crash point"], explanation="crash points and failing writes while publishing chunks and maps")
prop("C04", functions=[(DF, "rbd.rbd:RBDDiffV1.integrate"), (DF, RBD + "diff"), (ST, "utils:punch_hole"), (ST, "utils:_fake_fallocate")], assumptions=ST_ASSUME + DF_ASSUME,
     bounded=["malformed diffs, the whole of CephRBD.diff"], explanation="well-formed, truncated and malformed diffs against an independent reference")
prop("C05", functions=[(BA, SRC + "backup"), (CE, RBD + "full"), (DF, RBD + "diff"), (CE, RBD + "verify"), (ST, "utils:copy"), (ST, "utils:files_are_roughly_equal")], trusted=["RBDSource.open", "CephRBD.ready", "RBDSource.verify (proved for C08 and C17)"], assumptions=ST_ASSUME + IM_ASSUME[:1] + CE_ASSUME + DF_ASSUME + BA_ASSUME, bounded=["RBDSource.backup over a stand-in for the rbd command"], explanation="backups with faults at every external call, interrupted backups")
prop("C06", functions=[(IM, SRC + x) for x in ("restore", "restore_file", "restore_stdout", "restore_backy_extract", "backy_extract_supported")] + [(ST, "utils:copy"), (ST, "utils:punch_hole"), (ST, "utils:_fake_fallocate")],
     trusted=["RBDSource.open"], assumptions=ST_ASSUME + IM_ASSUME, bounded=["restore with all backends and targets"], explanation="restored contents compared with what was backed up")
prop("C07", functions=[(GA, SRC + "gc"), (GA, SRC + "open"), (CK, STORE + "purge"), (CK, STORE + "chunk_path")], trusted=CK_TRUST[:1], assumptions=CK_ASSUME[3:] + ["files in the store are named by their hashes (Chunk.flush, C03)", "the list of files is read before the first one is removed"] + GA_ASSUME,
     bounded=["RBDSource.gc, Store.purge, FileSource.gc"], explanation="chunk sets before and after collecting garbage")
prop("C08", functions=[(GA, SRC + "verify"), (GA, SRC + "gc"), (GA, SRC + "open"), (CK, CHUNK + "_read_existing"), (RV, "revision:Revision.verify"), (RV, "revision:Revision.distrust"), (RV, "revision:Revision.remove"), (RV, "revision:Revision.write_info")],
     assumptions=GA_ASSUME,
     bounded=["RBDSource.verify"], explanation="damage layouts and trust states")
prop("C09", functions=[(GA, SRC + "open#write"), (GA, SRC + "open"), (CK, CHUNK + "flush"), (RV, "revision:Revision.distrust"), (RV, "repository:Repository.contains_distrusted"), (RV, "repository:Repository.prevent_remote_rev"), (RV, "repository:Repository.distrust"), (RV, "revision:Revision.write_info")],
     assumptions=GA_ASSUME,
     bounded=["RBDSource.open, Repository.distrust"], explanation="forced writes with distrusted revisions")
prop("C10", functions=[(RV, "revision:Revision.get_parent"), (CE, RBD + "get_parent")], assumptions=CE_ASSUME[1:],
     bounded=["CephRBD.get_parent, Revision.get_parent"], explanation="selection of the base of incremental backups")
prop("C11", functions=[(CE, RBD + "create_snapshot"), (CE, RBD + "_delete_old_snapshots")], assumptions=CE_ASSUME, bounded=["CephRBD.create_snapshot, _delete_old_snapshots"], explanation="snapshot listings and requests with faults")
prop("C12", functions=[(EX, "schedule:Schedule.expire"), (EX, "repository:Repository.expire"), (SP, "repository:Repository.find_revisions"), (HI, "repository:Repository.scan"), (HI, "revision:Revision.load"), (RV, "revision:Revision.write_info"), (RV, "revision:Revision.remove")],
     assumptions=["tags of a schedule are plain names (no operators of the specifier language), keep >= 1, intervals are positive", "metadata files are well-formed and named by their UUID"],
     bounded=["Schedule.expire"], explanation="histories and schedules, kept and removed revisions")
prop("C13", functions=[(SC, "schedule:next_in_interval"), (SC, "schedule:Schedule._next_ideal"), (SC, "repository:Repository.last_by_tag"), (SC, "schedule:Schedule._missed"), (SC, "schedule:Schedule.next")] + [(DU, "schedule:parse_duration#" + x) for x in ("w", "d", "h", "m", "s", "none")],
     bounded=["Schedule.configure"],
     explanation="next backup time and tags as postconditions over all histories and schedules")
prop("C14", functions=[(RV, "repository:Repository.find_by_number"), (RV, "repository:Repository.find_by_uuid"), (RV, "repository:Repository.find_by_tag"), (SP, "repository:Repository.find"), (SP, "repository:Repository.index_by_date"), (SP, "repository:Repository.find_revisions")]
     + [(SP, "repository:Repository.find_revisions#" + x) for x in ("union", "intersection", "group", "first", "last", "not", "reverse", "range", "from", "upto", "dates", "union-of-intersection", "intersection-in-union", "group-in-intersection", "not-in-intersection")],
     bounded=["the tokenizer applied to whole expressions, find_by_function, ISO date parsing"], explanation="specifier expressions against an independent evaluator")
prop("C15", functions=[(EX, "repository:Repository.tags"), (SP, "repository:Repository.find_revisions"), (RV, "repository:Repository.validate_tags"), (RV, "repository:Repository.prevent_remote_rev"), (RV, "revision:Revision.write_info"), (RV, "revision:Revision.remove")],
     bounded=["Repository.tags"], explanation="tag edits against a model")
prop("C16", functions=[(PE, "revision:Revision.to_dict"), (RV, "revision:Revision.write_info"), (RV, "revision:Revision.remove"), (HI, "revision:Revision.load"), (HI, "repository:Repository.scan")],
     bounded=["Revision.write_info/load, SafeFile"], explanation="round trips and crash points of metadata")
prop("C17", functions=[(GA, SRC + "gc"), (GA, SRC + "verify"), (RV, "repository:Repository.distrust"), (RV, "repository:Repository.rm"), (HI, "repository:Repository._clean"), (EX, "repository:Repository.expire"), (EX, "repository:Repository.tags")],
     assumptions=GA_ASSUME,
     bounded=["Repository.lock/locked and all operations"], explanation="lock states during operations as seen by other processes")
prop("C18", functions=[(SC, "repository:Repository.sla_overdue"), (CL, CMD + "check"), (CL, CMD + "__call__")],
     assumptions=["whether a repository is overdue does not change while it is checked"], bounded=["BackyDaemon.status"], explanation="SLA as postcondition over all histories")
prop("C19", functions=[(AP, "daemon.api:BackyAPI." + x) for x in ("__init__", "require_auth", "get_backup", "run_purge", "touch_backup", "get_revs", "put_tags")] + [(CO, "daemon:BackyDaemon._apply_config"), (RV, "revision:Revision.write_info"), (RV, "revision:Revision.remove")],
     trusted=["Repository.tags by its contract (proved under C15)", "aiohttp passes every request through its middlewares and calls the handler of its route"],
     assumptions=["a job that is configured has its configuration; configuring may fail (the daemon ends then)", "the lists of tags in a request are read as sets", "the specifier is a single one", "metadata files are well-formed and named by their UUID"],
     bounded=["BackyAPI handlers over real HTTP"], explanation="all routes with and without tokens")
PE_ASSUME = ["a peer reports revisions with different UUIDs, as Client.get_revs hands them on", "the history in memory is what the metadata files say when the exchange begins", "metadata files are well-formed and named by their UUID", "requests are refused, not answered, or carried out and answered"]
prop("C20", functions=[(PL, JOB + "pull_metadata"), (PL, JOB + "_pull_metadata_single"), (PL, "repository:Repository.scan#safe"), (PE, JOB + "_pull_metadata_single"), (PE, JOB + "_push_metadata_single")] + [(CT, "daemon.api:Client." + x) for x in ("get_revs", "put_tags", "touch_backup", "run_purge")] + [(PE, "revision:Revision.to_dict"), (RV, "revision:Revision.write_info"), (RV, "revision:Revision.remove")], assumptions=PE_ASSUME + ["a peer answers with complete documents of its revisions", "peers are asked one after the other (a pull does not wait once it has begun to change the repository)"], trusted=["aiohttp: a request that returns has been carried out, any other status raises"],
     bounded=["Job.push_metadata as a whole, pulls that run at the same time"], explanation="random peers, failures and edits")
JO_ASSUME = ["the steps of a run (run_backup, pull_metadata, ...) succeed or raise; their own contracts are proved elsewhere where listed"]
prop("C21", functions=[(JO, JOB + "run_forever"), (LE, JOB + "_wait_for_leader"), (PE, JOB + "run_backup"), (HI, "repository:Repository._clean"), (HI, "repository:Repository.scan"), (HI, "revision:Revision.load"), (RV, "revision:Revision.remove")],
     assumptions=JO_ASSUME + ["asking peers for the status of a job: each answers at any time, with any status, or fails"], bounded=["the job loop in virtual time"], explanation="job loop in virtual time")
prop("C22", functions=[(PU, "utils:has_recent_changes"), (PU, "daemon:BackyDaemon.purge_old_files")],
     assumptions=["the file system does not change during one pass, except for what is deleted", "directory trees are finite (the recursion ends, and what was not changed since an earlier time was not changed since a later one)"], bounded=["random trees, links and faults"], explanation="random trees, links and times")
prop("C23", functions=[(CL, "source:Source.main"), (CL, CMD + "__call__"), (CL, CMD + "__call__#repos"), (CL, CMD + "__call__#none"), (CL, CMD + "verify"), (CL, CMD + "tags"), (CL, CMD + "gc"), (CL, CMD + "backup"), (CL, CMD + "restore"), (CL, CSRC + "backup"), (CL, CSRC + "restore"), (CL, CSRC + "verify"), (CL, CSRC + "gc"), (PE, JOB + "run_backup")],
     trusted=["argparse, logging and yaml configuration", "subprocess.run and asyncio.create_subprocess_exec give the exit code of the program"], bounded=["main"], explanation="operations and outcomes")
prop("C24", functions=[(ST, "utils:files_are_equal"), (ST, "utils:files_are_roughly_equal"), (CE, RBD + "verify")] + [(RE, "report:ChunkMismatchReport." + x) for x in ("__init__", "_store_chunk", "store")] + [(RE, "report:ProblemReport.store"), (RE, "repository:Repository.add_report"), (RE, "cli:Command.reports_delete")], assumptions=ST_ASSUME + CE_ASSUME[:1] + ["random.sample returns as many different elements as it is asked for", "different blocks have different hashes", "reports and kept blocks have different names, and names of reports contain no dots"], bounded=["files_are_equal, files_are_roughly_equal, reports on real files"], explanation="contents, samples and reports")
