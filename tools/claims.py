RT = "runtime monitoring: "
CLAIMS = {
"C01": (RT+"real ct-fetch against fake RFC 6962 logs with a fault-injecting redis proxy; offline checker compares every saved log state with the recorded members and the ground truth", "fault_enumeration",
        "Sampled faults (kill, signals, HTTP, redis, tampering) and worlds; not exhaustive over crash points."),
"C02": (RT+"the real log verifier driven over all small tree-size pairs with systematically tampered leaves, splits and proofs; oracle is the Merkle tree the leaves were committed to", "exploration",
        "Exhaustive over small tree sizes and the listed alterations, sampled above."),
"C03": (RT+"real ct-fetch against fake static-CT logs (signed checkpoints, tiles, issuers) with faults and tampering; offline checker of saved state against ground truth", "fault_enumeration",
        "Sampled faults and worlds."),
"C04": (RT+"real ct-fetch over generated certificates, members recorded in redis compared with an independent DER construction of what they must be", "exploration",
        "Generated certificates; identities are known by construction, not by parsing with the code under test."),
"C20": (RT+"real ct-fetch with local and remote enrolment that changes while it runs; monitor over the logs' request traces and saved states", "exploration",
        "Wall-clock bounded waits; concurrent downloaders are detected from overlapping request streams."),
"C22": (RT+"real ct-fetch over logs with hostile timestamp sequences, growth and kills; checker of every saved interval against ground truth", "exploration",
        "Sampled histories; timestamps limited to values whose millisecond arithmetic fits the representation."),
"C05": (RT+"real commits against a real redis behind a proxy that repeats, reorders and splits SCAN/SSCAN answers and against concurrent ingestion; conservation checker over a shadow ledger and independent parsers of storage and cache", "exploration",
        "Sampled cache contents and interleavings; up to tens of thousands of entries and several thousand bins."),
"C06": (RT+"the real commit program interrupted at every cache command (kill, error before/after, dropped connection) and, with strace fault injection, at every file operation; state checked after the interruption and after recovery", "fault_enumeration",
        "Every command and traced system call of the commits of sampled worlds; write() failures are left to C21."),
"C07": (RT+"random histories of ingestion, commits, cache losses, rollbacks, foreign storage and recoveries (API and real ct-fetch), recovery interrupted at every command; invariant checker on raw state after every step", "fault_enumeration",
        "A cache of another lineage that happens to have the right epoch is outside the property."),
"C08": (RT+"lock operations interleaved with expiry/acquisition at every command through a proxy, multi-party stress with delays, programs with an abandoned or held lock; monitor of the holder in redis", "exploration",
        "All single-event interleavings of two parties plus random multi-party schedules."),
"C09": (RT+"real commits over storage directories full of lists around the present and look-alike files, in several time zones; EXPIRETIME of every cache key watched through insert/commit histories; expiry decisions against calendar arithmetic", "exploration",
        "Real clock: lists within 3 s of their expiry are not judged, except at the API."),
"C10": (RT+"real aggregate-known against a real redis and storage with redis faults, damaged and unwritable files, signals, lock contention and strace fault injection; whatever run reports success has its whole output compared with a shadow of the committed set", "fault_enumeration",
        "Faults at sampled commands and system calls of sampled worlds."),
"C16": (RT+"generated values taken through every conversion of the real code, with collision monitors over pools of confusable values and round trips through redis and storage files", "exploration",
        "Sampled values; SHA-256 collisions excluded."),
"C11": (RT+"real aggregate-crls over several runs against a fake web whose every answer is scripted (status, truncation, wrong signer, garbage, stalls, partial content, kills); a model of the CRL directory decides what must be on disk and used", "fault_enumeration",
        "Sampled sequences of server behaviours and kills."),
"C12": (RT+"real aggregate-crls over generated CRLs (sizes, reasons, serial shapes) with failing parts and signals; every revoked list compared with the encoded ground truth", "fault_enumeration",
        "Sampled contents, combinations of failures and signal times."),
"C13": (RT+"the real downloader driven through thousands of scripted exchanges with a fault-injecting server and prior local states; oracle over the file, the return value and the server's own request log", "fault_enumeration",
        "Sampled sequences; a local file whose date is not older than the server's counts as up to date."),
"C19": (RT+"real aggregate-crls with every outcome per CRL; audit report compared with the known fate of each CRL", "exploration",
        "Sampled outcomes; full-CRL URLs of partitioned issuers are not judged for distribution points."),
"C14": (RT+"real aggregate-crls over thousands of hostile and confusable URLs, each served its own CRL by a fake web; files identified by content, over several runs; monitor of everything that appears on disk", "exploration",
        "Sampled URLs; identity of URLs is what a server can tell apart. Collisions of the 64-bit name hash are out of reach."),
"C15": (RT+"real report loading over generated PKIs and reports, and over histories of faulty fetches; oracle is a model of path validation over certificates whose relations are known by construction", "fault_enumeration",
        "Sampled PKIs of up to about 14 certificates; paths on which one key occurs twice are not used (the verification library does not follow them)."),
"C21": (RT+"the real programs run under file size limits at byte granularity, on file systems with a chosen number of free pages and inodes, on full devices and with failing write/close calls (strace); whatever run reports success has its outputs compared with the undisturbed ones, and stored state is judged after every run", "fault_enumeration",
        "Limits at sampled sizes and all page boundaries of sampled worlds; the serial list writer at every byte offset."),
"C17": ("Go race detector on race-instrumented builds of all programs, run under the workloads of the other monitors and three load workloads (log churn with health queries, commits and known lists of many bins, many CRLs with DNS lookups); reports attributed to the code under test", "exploration",
        "The schedules that happen; every workload executes both sides of the accesses repeatedly. A self-test shows the detector reports races here."),
"C18": (RT+"the real configuration code resolves generated combinations of command line, environment, file and home file in child processes, all settings at once with distinct values; oracle is the precedence rule. Real commit runs confirm that programs use the resolved values", "exploration",
        "All states of every setting's sources in random combination; values on which the two parsers differ (0x10, yes) are not used."),
"C23": (RT+"the real publisher run over histories of runs, corrupt record sets, clock changes and option changes against a fake Remote Settings server and bucket with faults, kills and lost answers at every request; monitor of the channels after every publication and at every review request", "fault_enumeration",
        "Sampled histories and faults; the client libraries are replaced by stand-ins (the real ones are not installed)."),
"C24": (RT+"the same workload as C23, judged at every single write to the server: marker, channel, attachment, expression, other channels, no-op", "fault_enumeration",
        "Sampled histories and faults; stand-ins for the client libraries."),
"C25": (RT+"the real publisher run over enrolled lists and malformed, duplicated, stale and tampered remote records with faults at every request; the collection is compared with the enrolled list at every review request and after every publication", "fault_enumeration",
        "Sampled collections and faults; certificates are stand-in DER that only carries what the publisher reads."),
"C26": (RT+"the real publisher run over histories of upstream log lists, edited and defective lists, operators' enrollment changes and faults at every request; the collection is compared with the upstream list", "fault_enumeration",
        "Sampled lists and faults; log records themselves are taken to be well-formed."),
"C27": (RT+"the real listing, allocation and upload scripts run over histories of buckets, clock changes and faults at every storage request; monitor at every upload of a marker", "fault_enumeration",
        "Sampled histories and faults; a stand-in for the storage client."),
"C28": (RT+"the real sign-off tool, sign-off job and publisher run over all states and malformed answers with faults, racing changes and no-op options; monitor of every status change at the fake server", "fault_enumeration",
        "Sampled combinations; stand-ins for the client libraries."),
"C29": (RT+"the real generator, built with filter builders that record what they are given, run over generated known and revoked lists, reason sets, existing outputs, size limits and failing system calls (strace); the recorded sets are compared with those the lists define", "fault_enumeration",
        "Sampled lists and faults. The filter builders themselves (other crates, not installed here) are stand-ins, as are argument parsing and logging."),
"C30": (RT+"the real generator run over histories of consecutive runs with absent, damaged and foreign previous sets and failing system calls; deltas and stored sets are compared with the differences of the ground truth", "fault_enumeration",
        "Sampled histories; filter builders are stand-ins."),
"C31": (RT+"the real job scripts and generation step run over recording programs that fail in every place and way; monitor of the recorded calls, of the run directory at each call and of the exit status", "fault_enumeration",
        "Sampled combinations of failures and options; single failures of every step are all reached."),
"C32": (RT+"whole pipelines (allocation, uploads, the real generator twice, publisher) run over histories with faults and kills at every storage and server request; a client model follows each channel and is compared with the ground truth of the runs", "fault_enumeration",
        "Sampled histories; filter builders and client libraries are stand-ins."),
"C33": (RT+"real ct-fetch over hanging, late, failing and quick logs; the logs record when each pass over them begins and ends, and every answer of the health endpoint is compared with those bounds", "exploration",
        "Sampled timings, in real time with polling delays of 1-3 s."),
"C34": (RT+"real rust-query-crlite, built against stand-ins for its TLS, HTTP, X.509 and filter libraries, asked about generated certificates over databases of known content; every answer and exit status is compared with what the filters say", "exploration",
        "Sampled databases and certificates; the real TLS, X.509 and clubcard crates are not available offline and are not exercised."),
"C35": (RT+"histories of real rust-query-crlite updates from a fake Remote Settings whose requests hang up, are cut, fail, lie or kill the tool; after every update the database is compared with what was published", "fault_enumeration",
        "Sampled histories; the tool is killed while it waits for an answer, not in the middle of a write."),
}
NOT_APPLICABLE = {}
