#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because 30 long JSON lines are unreadable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook is not None: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CT="go/cmd/ct-fetch/"; ST="go/storage/"
prop("C01","RFC 6962 log coverage never outruns the recorded certificates",
 "Whatever happens to ct-fetch (kill, signal, server, network or database fault, restart), every unexpired certificate entry that has an issuer and whose index lies in the range [first, last] that the saved state of an RFC 6962 log claims has already been recorded in the cache. The claimed range stays contiguous and only grows while the cache survives. Repeated healthy runs extend it, for every batch size of at least 4 and every log of more than three entries (smaller ones cannot be verified yet and wait), until it is the whole log from entry 0 to the last entry of the latest tree head. A state saved by an older version under its older key is found and continued, and never replaces a newer one.",
 ["inputs","schedules","crash_points","fault_sequences","histories"],
 "all log sizes (0..several thousand), growth histories, batch sizes, response chunkings, kill points and HTTP/redis fault sequences",
 "cmd/ct-fetch has no tests at all; the guarantee quantifies over crash points and fault sequences across three processes (log server, ct-fetch, redis).",
 [CT+"ct-fetch.go",CT+"rfc6962.go",ST+"certdatabase.go",ST+"rediscache.go"],
 [("entries precede their state message in one channel; queue flushed before the state is saved",CT+"ct-fetch.go insertCTWorker, tryUpdate"),
  ("job selection Init/Update/Backfill/Sleep and contiguity check",CT+"rfc6962.go NewLogWorker, Run, updateState")],
 ["redis log state vs redis serial sets vs the fake log's ground truth"],
 [("log state","first/last index claimed","redis key log::<url>")])
prop("C02","Log entries that fail Merkle verification never become covered",
 "If any leaf a log server returns is altered, missing, duplicated, reordered or unparsable relative to the leaves committed to by the consistency proof it serves, or the proof has a wrong hash, hash length or number of hashes, the saved coverage is never extended over the affected entries. Correct leaves accompanied by a correct proof are always accepted, for every pair of tree sizes and every way the server splits its responses.",
 ["inputs","fault_sequences"],"all tree sizes, positions and kinds of tampering, and response splittings",
 "No test exercises the verifier; correctness is over all (old size, new size) pairs and tamper positions.",
 [CT+"rfc6962.go"],[("consistency proof annotated with subtrees, each subtree hash recomputed from downloaded leaves",CT+"rfc6962.go consistencyProofToSubtrees, Consume, CheckClaim")],
 ["saved log state after runs against a tampering log server"])
prop("C03","Tiled log coverage never outruns the recorded certificates",
 "Whatever happens to ct-fetch, every unexpired certificate entry that has an issuer and whose index is at most the last index that the saved state of a tiled (static CT) log claims has already been recorded in the cache, beginning with entry 0. Tiles, entries or checkpoints that fail authentication, and issuer certificates that cannot be fetched, never extend the claim. Repeated healthy runs extend it to the last entry of the latest checkpoint and never move it backwards. A state saved by an older version under its older key is found and continued, and never replaces a newer one.",
 ["inputs","schedules","crash_points","fault_sequences","histories"],
 "all tree sizes around tile boundaries, growth histories, batch sizes, kill points and tile/issuer/checkpoint/redis faults",
 "cmd/ct-fetch has no tests; needs a signing tiled log and crash/fault injection.",
 [CT+"tiled.go",CT+"ct-fetch.go"],[("entries iterated from the last saved index; state saved after entries",CT+"tiled.go Run/readLogEntries/updateState")],
 ["redis log state vs redis serial sets vs the fake log's ground truth"])
prop("C04","Each log entry is recorded under exactly the right identity",
 "Each certificate or precertificate entry that is recorded is recorded under the SHA-256 of the public key info of the CA that issues the final certificate (looking through a precertificate signing certificate), with the exact serial number bytes, the UTC hour of its notAfter, the entry's own timestamp and the log's own ID. Expired certificates (unless configured otherwise) and entries without an issuer are not recorded, and nothing that no log served is recorded. This holds equally for RFC 6962 and tiled logs.",
 ["inputs"],"all certificate shapes: serial lengths/signs/leading zeros, time encodings and offsets, issuer chains, precert signing CAs, parser quirks",
 "Tests cover a handful of certificates and no end-to-end ingestion.",
 ["go/types.go",CT+"rfc6962.go",CT+"tiled.go",ST+"certdatabase.go",ST+"types.go"],
 [("issuer selection through pre-issuer",CT+"rfc6962.go storeLogEntry; "+CT+"tiled.go storeLogEntry"),("cache member and key construction",ST+"certdatabase.go PrepareSetMember; "+ST+"types.go NewMember")],
 ["contents of every serial set after ingestion"])
prop("C05","A commit conserves serials: covered ones move, the rest stay, none is lost",
 "A successful commit stores every recorded serial whose entry is covered by the coverage metadata it publishes, merged without duplicates into what was stored before, under the same issuer and expiry, and removes only those from the cache; entries that are not yet covered stay in the cache and are not stored. No serial recorded before or during the commit is lost and none is invented. This holds for any number of logs, issuers, expiry bins and serials, any concurrent ingestion, and any order or repetition in which the cache lists its keys and members.",
 ["inputs","schedules","histories"],"all cache contents, coverage states, numbers of bins, and interleavings with ingestion",
 "Tests use a mock cache, a few serials and no concurrency with ingestion.",
 [ST+"certdatabase.go",ST+"rediscache.go",ST+"types.go","go/types.go"],
 [("snapshot coverage, move covered, write atomically, then remove from cache",ST+"certdatabase.go Commit, moveOneBinOfCachedSerialsToStorage"),("coverage cutoff = latest timestamp minus MMD","go/types.go CoverageCutoff; "+ST+"types.go IsCovered")],
 ["storage files, cache sets and ct-logs.json before/after"])
prop("C06","An interrupted commit loses nothing and is recoverable",
 "If a commit is killed, or any file or cache operation inside it fails, at any point, persistent storage stays readable, every serial that was in storage or cache is still in one of them, and the published coverage metadata (old or new, never torn) describes only serials that are stored. Running consistency recovery and commit again then yields the same stored serials and coverage as an uninterrupted commit.",
 ["crash_points","fault_sequences"],"every cache command and file operation inside a commit as kill or failure point",
 "No test kills or fails a commit part-way.",
 [ST+"certdatabase.go"],[("temp file + rename, then cache removal, then coverage, then epochs",ST+"certdatabase.go Commit")],
 ["storage directory and redis after the crash and after recovery"])
prop("C07","A lost, stale or foreign cache is detected before it can corrupt coverage",
 "When the cache has been lost, has been rolled back to before the last commit, or belongs to storage that went through another number of commits, a commit refuses to run and changes nothing, and starting ingestion resets the cached log positions to exactly those recorded with persistent storage, so that ingestion resumes contiguous with what is stored. When cache and storage agree, starting ingestion changes nothing. After recovery a following commit succeeds and no later coverage claim includes a serial that is missing.",
 ["histories","fault_sequences"],"all histories of commits, cache losses, cache/storage rollbacks and restarts",
 "Tests check a few single-step epoch situations on a mock.",
 [ST+"certdatabase.go",ST+"rediscache.go"],[("epoch comparison and restore",ST+"certdatabase.go EnsureCacheIsConsistent, Commit; "+ST+"rediscache.go Restore")],
 ["epochs, log states and storage after each step of a history"])
prop("C08","The commit lock has one holder and only its holder can use or free it",
 "At any time at most one party holds the commit lock, whatever the interleaving of acquisitions, releases, expirations and network delays; a release with a token that is no longer (or never was) current never frees somebody else's lock. Committing or recovering without holding the lock fails and changes neither storage nor cache. A lock abandoned by a killed process eventually expires, and one released by its holder is immediately available.",
 ["schedules","histories"],"all interleavings of acquire/has/release/expiry/commit by several clients with delays between cache commands",
 "Tests exercise one client sequentially.",
 [ST+"rediscache.go",ST+"certdatabase.go","go/cmd/commit/commit.go","go/cmd/aggregate-known/aggregate-known.go"],
 [("set-if-absent with expiry and token compare",ST+"rediscache.go AcquireCommitLock/ReleaseCommitLock/HasCommitLock")],
 ["linearised history of lock operations on a real redis through a delaying proxy"])
prop("C09","Expired serials are dropped, and only expired ones",
 "After a commit persistent storage holds no serial list whose expiry hour (or, for day-resolution lists, day) has completely passed, and still holds, unchanged, every list whose expiry has not completely passed. Files and directories that are not serial lists are left alone. Recorded serials stay available in the cache at least until the hour in which they expire begins, and what is recorded does not stay there for ever.",
 ["inputs","histories"],"all expiry times relative to now, both resolutions, directory contents and insertion orders",
 "Tests use two fixed dates.",
 [ST+"certdatabase.go","go/types.go",ST+"rediscache.go"],[("expiry bins parsed from names and compared with now",ST+"certdatabase.go removeExpiredSerialsFromStorage; go/types.go NewExpDate/IsExpiredAt"),("cache key expiry",ST+"rediscache.go SetInsertMany")],
 ["storage tree before/after commit; redis TTLs"])
prop("C10","The known-certificates output is exactly the committed unexpired set",
 "When aggregate-known succeeds, it has written, for every enrolled issuer with stored serials, a file holding exactly that issuer's stored unexpired serials, each under a line giving its expiry, nothing for issuers that are not enrolled, and coverage metadata equal to that stored with those serials. If the lock, a commit step, any serial list, or any output cannot be obtained, read or written, it exits with failure. It always releases the commit lock.",
 ["inputs","configurations","fault_sequences"],"all storage contents, enrolled sets, thread counts and read/write faults",
 "cmd/aggregate-known has no tests.",
 ["go/cmd/aggregate-known/aggregate-known.go",ST+"certdatabase.go","go/rootprogram/issuers.go"],
 [("per-issuer workers read storage and write known files","go/cmd/aggregate-known/aggregate-known.go run, work")],
 ["known directory, ct-logs output and exit status vs storage"])
prop("C11","Only CRLs signed by the issuer are used, and a bad download keeps the good one",
 "Revocation data is only ever taken from a CRL whose signature verifies with the issuer's own key. When a download fails, is cut short, or yields anything else, the previously downloaded valid CRL stays in place byte for byte and is used; an invalid file never replaces a valid one, whatever the server does and wherever the process is killed. A valid new CRL replaces the old one.",
 ["inputs","fault_sequences","crash_points"],"all server behaviours (status, truncation, wrong signer, garbage, stalls) in all sequences over several runs, and kill points",
 "Tests use one good and one bad file; no sequences, no crashes, no real servers with faults end to end.",
 ["go/downloader/verifying-downloader.go","go/downloader/downloader.go","go/cmd/aggregate-crls/aggregate-crls.go"],
 [("download to temp, verify signature, rename, else fall back","go/downloader/verifying-downloader.go DownloadAndVerifyFileSync")],
 ["CRL directory and revoked output after each run"])
prop("C12","Each issuer's revoked list is exactly its CRLs' content, or absent",
 "For each issuer with CRLs, a completed run writes a revoked list that contains exactly the (reason, serial) pairs of all its CRLs, with serial bytes and reason codes exactly as encoded and an absent reason as 0, or, if any one of its CRLs could not be obtained, verified or decoded, no list at all from this run. One issuer's failure never changes another's list. A run that is interrupted before it has finished does not end in success.",
 ["inputs","configurations","fault_sequences"],"all CRL contents (sizes, reasons, serial shapes, duplicates, empty), numbers of CRLs per issuer, failures, thread counts, signals",
 "Tests feed single CRLs to helper functions; the all-or-nothing rule and exactness are over all combinations.",
 ["go/cmd/aggregate-crls/aggregate-crls.go","go/types.go"],[("any failed CRL suppresses the issuer's list","go/cmd/aggregate-crls/aggregate-crls.go aggregateCRLWorker, StoreRevokedCertificateList"),("raw serial and reason decoding","go/types.go DecodeRawTBSCertList, Reason")],
 ["revoked directory and exit status vs ground truth"])
prop("C13","A download reported as successful leaves exactly what the server serves",
 "When fetching a file is reported as successful, the file holds exactly the complete body the server currently serves for that URL, or was left untouched because it was already up to date with it. Error statuses, refused or broken connections, short bodies, stalls and cancellation are reported as failures after at most the allowed number of retries, and a transient failure within that number does not fail the fetch. A verified download leaves no temporary file behind.",
 ["inputs","fault_sequences","histories"],"all sequences of server behaviours, prior local file contents and modification times",
 "Tests cover single exchanges.",
 ["go/downloader/downloader.go","go/downloader/verifying-downloader.go","go/rootprogram/issuers.go"],
 [("HEAD decides create/resume/up-to-date; retries","go/downloader/downloader.go determineAction, download, DownloadFileSync")],
 ["file content, mtime and return value vs server log"])
prop("C14","CRL URLs map to distinct, valid files inside the issuer's own directory",
 "Any two CRL URLs of an issuer that differ in more than the order or encoding of query parameters are stored in different files, and the same URL is always stored in the same file. Every such file lies directly in that issuer's directory and has a name the file system accepts, whatever characters, encodings, dots, slashes or length the URL has.",
 ["inputs"],"all URLs", "Tests check a few URLs; injectivity and confinement are over all URLs.",
 ["go/cmd/aggregate-crls/aggregate-crls.go"],[("sanitised name plus hash of the normalised URL","go/cmd/aggregate-crls/aggregate-crls.go makeFilenameFromUrl, normalizedUrlString")],
 ["files created under the CRL directory"])
prop("C15","The issuer set is exactly the unrevoked TLS intermediates chaining to roots",
 "Loading a CCADB report enrolls exactly the issuers of those unrevoked intermediate certificates that chain, for TLS server authentication and possibly through other unrevoked intermediates, to an unrevoked root in the report, each with exactly the http(s) CRL URLs disclosed for those certificates. Saving the enrolled list and loading it again preserves issuers, certificates and attributes. A report that cannot be fetched completely or parsed, or an enrolled list that is damaged, is rejected with an error, and a later load never accepts its remains.",
 ["inputs","fault_sequences"],"all report contents: row orders, duplicates, shared keys, revocation states, malformed rows, chain shapes, CRL fields; fetch faults",
 "Tests cover a few hand-made reports.",
 ["go/rootprogram/issuers.go"],[("CSV parse, root/intermediate pools, chain verification","go/rootprogram/issuers.go LoadFromDisk, decodeCrls, InsertIssuer"),("enrolled list","go/rootprogram/issuers.go SaveIssuersList, LoadEnrolledIssuers")],
 ["issuers, CRL map and enrolled.json vs an independent model"])
prop("C16","Serial, issuer, expiry and cache-entry encodings are lossless and canonical",
 "Serial numbers, issuer identities, expiry dates and cache entries survive every conversion between their binary, hex, JSON, file-name and cache forms unchanged, and different values never share a representation. Reading back a stored serial list yields exactly the serials and expiry written, and deduplication keeps each distinct serial exactly once. A cache entry counts as covered exactly when its own log's latest covered timestamp minus the log's merge delay is at or after its timestamp.",
 ["inputs"],"all byte strings as serials, all instants in any time zone, all timestamps, log IDs, MMDs and coverage states",
 "Tests check examples; injectivity and round trips are over all values.",
 ["go/types.go",ST+"types.go",ST+"certdatabase.go"],[("encodings","go/types.go Serial, Issuer, ExpDate; "+ST+"types.go NewMember, AsSerial, IsCovered; "+ST+"certdatabase.go WriteSerialList, ReadSerialsFromStorage")],
 ["values returned by the exported API"])
prop("C17","No data races",
 "No two goroutines of any program in the system access the same memory concurrently, at least one of them writing, without synchronisation, under any workload. This covers ingestion of many logs while they are enrolled and unenrolled, commits while serials are being inserted, parallel CRL download and aggregation, and parallel known-set writing. Programs also never crash with a runtime fault under such workloads.",
 ["schedules","inputs"],"all schedules of the concurrent workloads",
 "The tests are run without the race detector and do not run the programs.",
 ["go/cmd/ct-fetch/ct-fetch.go",ST+"certdatabase.go","go/cmd/aggregate-crls/aggregate-crls.go","go/cmd/aggregate-crls/crl-auditor.go","go/cmd/aggregate-known/aggregate-known.go","go/downloader/download-tracer.go","go/rootprogram/issuers.go"],
 [("mutexes, channels and wait groups","go/cmd/ct-fetch/ct-fetch.go EnrolledLogs, LogSyncEngine; go/cmd/aggregate-crls/crl-auditor.go")],
 ["Go race detector reports from race-instrumented builds of the real programs"])
prop("C18","Every setting takes effect with the documented precedence",
 "Each setting takes its value from the command line if given there, else from the environment variable of its documented name, else from the configuration file, else its documented default. A numeric or boolean value that does not parse is ignored in favour of the next source. No setting's value ever leaks into another setting.",
 ["configurations"],"all combinations of sources and well- or ill-formed values for all settings",
 "Tests set a few combinations.",
 ["go/config/config.go"],[("conf* helpers and Init","go/config/config.go")],["resolved settings in a child process"])
prop("C19","The CRL audit report tells what happened to every CRL",
 "After a completed run the audit report is well-formed and, for every CRL URL of every issuer, has an entry, with that URL and issuer, for each failure to download, verify or process it; for a CRL that was used it reports the file, its SHA-256 and its exact number of revocations, or that it is empty. A partitioned CRL that does not name its own URL as distribution point, or names another of the issuer's URLs, is reported as such, and a correct one is not. No entry reports a failure that did not happen.",
 ["inputs","fault_sequences"],"all combinations of CRL outcomes, issuers and thread counts",
 "Tests call the auditor's methods one at a time.",
 ["go/cmd/aggregate-crls/crl-auditor.go","go/cmd/aggregate-crls/aggregate-crls.go"],[("audit entries","go/cmd/aggregate-crls/crl-auditor.go"),("distribution point check","go/cmd/aggregate-crls/aggregate-crls.go loadAndCheckIssuingDistributionPointOfCRL")],
 ["audit JSON vs ground truth"])
prop("C20","Exactly the enrolled logs are ingested, by one downloader each",
 "ct-fetch ingests every log that is marked as enrolled in its local or remote configuration and contacts no other log. A log that becomes enrolled while ct-fetch runs starts being ingested, one that stops being enrolled stops being ingested after its current job, and a bad or failing configuration answer changes nothing. One log's errors never stop the ingestion of other logs.",
 ["histories","fault_sequences","configurations"],"all histories of enrollment changes, configuration-server faults and log failures",
 "No tests.",
 [CT+"ct-fetch.go"],[("enrolled log table and per-log goroutine",CT+"ct-fetch.go EnrolledLogs, SyncLog, updateFromRemoteSettingsOnce")],
 ["requests seen by fake log and configuration servers; log states"])
prop("C21","A program never reports success after failing to write its output",
 "If any output that the filter pipeline consumes (serial lists, known lists, revoked lists, enrolled list, coverage metadata) cannot be written completely, because of a full disk, a size limit or an I/O error at any point of the write, the program or operation that writes it reports failure. Data is never deleted from its source after an incomplete write, and a previously good stored file is not replaced by a truncated one.",
 ["fault_sequences","inputs"],"every write offset and output file as failure point",
 "No test makes a write fail.",
 [ST+"certdatabase.go","go/cmd/aggregate-known/aggregate-known.go","go/cmd/aggregate-crls/aggregate-crls.go","go/rootprogram/issuers.go"],
 [("buffered writers and their flush errors",ST+"certdatabase.go WriteSerialList; go/cmd/aggregate-crls/aggregate-crls.go StoreRevokedCertificateList; go/rootprogram/issuers.go SaveIssuersList")],
 ["exit status and outputs under write limits and full devices"])
prop("C22","A log's published coverage interval is justified by what was ingested",
 "The latest timestamp claimed for a log is at most the latest timestamp among its ingested entries, or, once every entry of a tree head has been ingested, that tree head's timestamp; the earliest timestamp claimed is not before the earliest ingested entry unless the log was ingested from its first entry. Healthy runs that ingest a whole tree head do advance the latest timestamp to that tree head's. While the cache survives, the latest claimed timestamp never decreases and the earliest never increases. The log's ID and merge delay in its state are those of its configuration.",
 ["inputs","histories","fault_sequences"],"all timestamp sequences (including non-monotone ones), log growth histories and faults",
 "No tests.",
 [CT+"rfc6962.go",CT+"tiled.go","go/types.go"],[("min/max timestamp tracking and sleep at the tree head",CT+"rfc6962.go updateState, Run; "+CT+"tiled.go updateState, Run")],
 ["log states after every run vs ground truth"])
PY="moz_kinto_publisher/main.py"
prop("C23","Published filters always form one full filter plus an unbroken delta chain",
 "After every successful publication each enabled channel holds exactly one full filter and a non-branching chain of deltas from it, each delta naming its predecessor and all in order of run time, ending in the newest run; a fault during publication never leads to a review request for anything else. An incremental update is published only if the existing records are consistent, still supported by retained runs, and not older than the channel's maximum age, and it then contains exactly the newer runs in order; otherwise a single full filter of the newest run replaces the channel's records. Publishing again without a newer run changes nothing.",
 ["histories","fault_sequences","inputs"],"all histories of runs, existing record sets (including corrupt ones) and server faults",
 "Tests cover single decisions, with mocks.",
 [PY],[("record and run consistency checks, publish decision",PY+" crlite_verify_record_consistency, crlite_determine_publish, publish_crlite")],["records of a fake Remote Settings server after every publication"])
prop("C24","Only complete runs are published, per channel, and a dry run changes nothing",
 "A filter or delta is published only from a run whose completion marker is present, and a delta only if the run's files for that channel exist; each record carries its own channel, the run's timestamp, the right attachment content and its channel's filter expression. Publishing one channel never modifies another enabled channel's records, and records of disabled channels are removed. A record whose attachment the server refuses is taken away again. With the no-op option nothing at all (filters, CT logs, intermediates, review state) is modified on the server.",
 ["histories","configurations","fault_sequences"],"all run states, channel sets and options",
 "Tests cover single decisions, with mocks.",
 [PY,"workflow/__init__.py"],[("completion marker and validity checks",PY+" PublishedRunDB, publish_crlite"),("noop guards",PY)],["operations and records at a fake server"])
prop("C25","The published intermediates equal the enrolled list before review is requested",
 "Review of the intermediates collection is requested only when the collection holds exactly one valid record, with matching hash and attachment, for each certificate of the enrolled list and nothing else. Records not in the list, duplicates and malformed records are deleted and missing ones added, with unchanged correct ones left untouched. If an addition fails part-way no half-made record remains referenced as valid and no review is requested.",
 ["histories","fault_sequences","inputs"],"all remote collection states, enrolled lists and server fault sequences",
 "Tests cover record parsing only.",
 [PY],[("set difference, then verification by re-reading",PY+" publish_intermediates")],["fake server collection at the time of each review request"])
prop("C26","CT log metadata follows upstream without touching enrollment decisions",
 "After publication the CT log collection lists exactly the upstream logs with upstream's current description, key, URL, merge delay, operator, kind and admissibility, while the enrollment flag of a log that was already listed keeps its value. An upstream list with duplicate or wrongly computed log IDs is rejected without any change. Failure to write one record does not prevent the others.",
 ["histories","inputs","fault_sequences"],"all upstream lists, collection states and server faults",
 "No tests.",
 [PY],[("add/delete/update with preserved enrollment",PY+" publish_ctlogs")],["fake server collection after publication"])
prop("C27","Run identifiers only increase and a run is marked complete only when uploaded",
 "Each newly allocated run identifier is distinct from and ordered after all existing runs of the filter bucket. The completion marker of a run is uploaded only after every artifact of that run's filters has been uploaded successfully, and never if the main filter is missing or an upload fails. Runs are always listed in chronological order, whatever order and format the bucket lists them in.",
 ["histories","fault_sequences"],"all bucket contents and upload faults",
 "No tests.",
 ["workflow/0-allocate_identifier","workflow/3-upload_mlbf_to_storage","workflow/__init__.py"],[("identifier normalisation and allocation","workflow/__init__.py normalize_identifier, get_run_identifiers; workflow/0-allocate_identifier"),("upload order","workflow/3-upload_mlbf_to_storage main")],["operations on a fake storage bucket"])
prop("C28","Automatic sign-off only approves what is waiting for review",
 "The sign-off tool changes only the status of the named collection, only from to-review to to-sign, and only when not in no-op mode; in every other state, and on any malformed answer, it changes nothing. It reports failure whenever the collection state cannot be read or changed. The sign-off job approves the filters only for a known instance and only while the size of the newest filter is known and within the limit. Likewise review is requested only for collections with work in progress.",
 ["inputs","fault_sequences","configurations"],"all collection states, malformed answers and server faults",
 "No tests.",
 ["containers/scripts/crlite-signoff-tool.py","containers/scripts/crlite-signoff.sh",PY],[("size limit before the sign-off","containers/scripts/crlite-signoff.sh"),("status check before patch","containers/scripts/crlite-signoff-tool.py sign_collection; "+PY+" request_review_of_collection")],["operations at a fake server and exit status"])
prop("C29","The filter includes exactly the known revoked certificates of its reason set",
 "The set handed to the filter builder as revoked is exactly the known certificates whose issuer's revoked list contains their serial with a reason in the selected set, and the set handed over as not revoked is exactly the remaining known certificates, each identified by issuer hash and serial bytes. Revoked serials that are not known, and revoked lists of issuers without known certificates, have no effect. Existing outputs are not overwritten unless requested, and the generator reports success only if it read all of its inputs and wrote all of its outputs.",
 ["inputs","configurations","fault_sequences"],"all known/revoked contents, reason codes and reason sets",
 "Tests cover a few entries.",
 ["rust-create-cascade/src/main.rs","rust-create-cascade/src/clubcard_helper.rs","rust-create-cascade/src/cascade_helper.rs"],[("file pairing and reason filtering","rust-create-cascade/src/main.rs")],["elements handed to a recording filter builder"])
prop("C30","A delta contains exactly the revocations that are new since the previous run",
 "The delta update produced together with a filter contains exactly the certificates that are revoked (for its reason set) now and were not in the previous run's revocation set, and the revocation set stored for the next run is exactly the certificates that are revoked now. Without a readable previous set no wrong delta is produced from it.",
 ["inputs","histories"],"all pairs of consecutive runs",
 "Tests cover a few entries.",
 ["rust-create-cascade/src/main.rs"],[("revset difference","rust-create-cascade/src/main.rs write_revset_and_delta")],["delta and revocation set files over histories of runs"])
prop("C31","The pipeline runs its steps in order and stops at the first failure",
 "The generation job allocates a run, aggregates the CRLs, aggregates the known certificates, uploads the source data, makes the filter of each reason set from the run's read-only lists, and uploads the filters, each step only after the ones it depends on, all on the same run and bucket; it stops with a failure status at the first step that fails, and succeeds only if all succeeded. With do-not-upload no upload step runs and the publishing job modifies nothing. The fetch, commit and publish jobs end with the status of their program. The filter generation step hands the run's own lists and logs, the requested reason set and the newest stored revocation set of the same kind to the generator, and fails when the generator fails.",
 ["fault_sequences","configurations"],"all combinations of failing steps, ways to fail and options",
 "No tests.",
 ["containers/scripts/crlite-generate.sh","containers/scripts/crlite-publish.sh","containers/scripts/crlite-fetch.sh","containers/scripts/crlite-commit.sh","workflow/2-generate_mlbf"],[("step order and error exit","containers/scripts/crlite-generate.sh"),("no-op decision","containers/scripts/crlite-publish.sh"),("generator arguments","workflow/2-generate_mlbf main")],["calls of recording programs and exit status"])
prop("C32","Clients that follow a channel end up with its current revocations",
 "After any history of runs, including failed, repeated and partly uploaded ones, and of publications, a client that applies a channel's full filter and then all of its deltas regards every certificate that is revoked in the newest published run, for a reason in the channel's set, as revoked, and regards a certificate of that run as revoked only if it was so in one of the runs since the full filter. This holds at every publication that ends well and whenever review is requested.",
 ["histories","fault_sequences","crash_points"],"all histories of runs, faults and publications",
 "No test runs the parts together.",
 ["workflow/2-generate_mlbf","workflow/3-upload_mlbf_to_storage","rust-create-cascade/src/main.rs",PY],[("which revocation set a delta is relative to","workflow/2-generate_mlbf main; workflow/3-upload_mlbf_to_storage main"),("difference","rust-create-cascade/src/main.rs write_revset_and_delta"),("chain of runs",PY+" crlite_determine_publish, publish_crlite")],["filters and deltas as a client sees them"])
prop("C33","ct-fetch reports its health truthfully",
 "While ct-fetch runs, its health endpoint answers 200 exactly when some pass over an enrolled log (a round of downloading, or of waiting for something to download) ended without a fatal error within the last two polling delays, 500 when the last one ended longer ago, and 503 with a Retry-After header while none has ended yet. A log that hangs, or whose download has ended with an error, does not count. (After 15 s, storing entries may count as progress too.)",
 ["schedules","fault_sequences","histories"],"all timings of slow, hanging and failing logs, numbers of logs, polling delays and moments of asking",
 "The guarantee is about time and about threads that may be stuck; no test starts the server.",
 [CT+"ct-fetch.go"],[("time of the last update registered after a pass",CT+"ct-fetch.go SyncLog, RegisterUpdate"),("health handler",CT+"ct-fetch.go main")],
 ["answers at healthAddr /health against the passes that the fake logs saw"])
prop("C34","A certificate query says Revoked exactly when a filter says so",
 "The answer of rust-query-crlite for a certificate (by file, TLS host, host list or crt.sh id) follows from its database alone: NotEnrolled unless some enrolled intermediate has the issuer's name and a key that verifies the signature; Expired outside the certificate's validity; otherwise Revoked if any filter calls that issuer key and serial revoked for the certificate's timestamps, else Good if any calls it good, else NotEnrolled if any covers it without knowing the issuer, else NotCovered; and NotCovered for every certificate when there are no filters. Every certificate that can be read is reported once, in order, unreadable files are skipped, and the exit status is 1 exactly when some certificate is revoked or the database, a host or the fetch cannot be used (0 otherwise). A query without --update changes no filter.",
 ["inputs","configurations"],"all databases, lists of intermediates and certificates, all ways of asking",
 "The tool has no unit tests, and the answers depend on combinations of names, keys, timestamps and filters.",
 ["rust-query-crlite/src/main.rs"],[("combination of filters' answers","rust-query-crlite/src/main.rs CRLiteDB::query"),("issuer lookup","rust-query-crlite/src/main.rs Intermediates::lookup_issuer_spki"),("exit status","rust-query-crlite/src/main.rs main")],
 ["reported answers and exit status against the known content of the filters"])
prop("C35","An updated query database is exactly the published channel",
 "After a successful rust-query-crlite --update, the filters and deltas in the database are exactly the records of the chosen instance and channel, each with the digest its record states, and the intermediates are the enrolled ones of the newest run among them. At no time, however an update fails or is killed, is content with another digest stored under a listed name, or a file removed that is still listed with its right content; other files are left alone. A collection without exactly one full filter for the channel is refused and changes nothing. An update that cannot be completed exits 1 and says so; a later one repairs what it left.",
 ["inputs","fault_sequences","histories"],"all histories of the published collection and of updates, all failures of their requests",
 "Needs histories of collections and updates with failures in between; the tool has no unit tests.",
 ["rust-query-crlite/src/main.rs"],[("selection, removal and digest of filters","rust-query-crlite/src/main.rs update_db"),("newest run and its intermediates","rust-query-crlite/src/main.rs update_intermediates")],
 ["files of the database after every update against what the fake Remote Settings published"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
