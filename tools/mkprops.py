#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P=[]
S="SmartCache/sim/cache/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Reported occupancy is the files held, and never exceeds capacity",
"After every request the space a cache reports as used equals the total size of the files it currently holds and is never negative. A cache with a bounded size never holds more than its configured capacity, and a file larger than the whole cache is never admitted. This stays true across evictions, trims to the watermark, redirected requests, restarts from a dump and cold starts.",
["histories","configurations","crash_points","schedules"],
"every cache type, capacity and option mix; every request history with arbitrary file sizes; every point at which the run is dumped, stopped and restarted",
"The size tests push a handful of fixed sizes through one queue; none restarts a cache, mixes evictions with watermarks, or compares the reported size with the files really held.",
[S+"simpleCache.go",S+"randomCache.go",S+"weightFun.go",S+"lruDatasetVerifier.go",S+"infiniteCache.go",S+"aiRL.go",S+"base.go"],
[("admission test before insertion","SimpleCache.UpdatePolicy and its overrides"),("size decrement on eviction","SimpleCache.Free, AIRL.callEvictionAgent"),("size re-accumulated on load","Loads")],
[dict(name="size",meaning="space in use (MB)",where=S+"simpleCache.go")],["Size, GetMaxSize, Capacity of a cache","FILES records of a dump","size/capacity columns of results and event log"])

p("C02","Evictions follow the configured policy order and stop when room is made",
"When room is needed the files removed are exactly the ones the configured policy ranks worst - least recently requested, fewest requests, largest, or smallest, with equals removed in order of how long ago they were last inserted or requested - and no more of them than needed to reach the requested amount. A file not chosen by the policy is never lost, so a request is a hit exactly when the file was admitted and not evicted since. The same order holds after a restart from a dump.",
["histories","configurations","crash_points"],
"every request history, ties included, for the LRU, LFU, size-ordered, LRU-with-filter and LRU-with-learned-admission caches; every restart point",
"Queue tests insert a few files and check the order once; they do not interleave hits, partial evictions, re-insertions, ties and restarts, which is where index caches and buckets go stale.",
[S+"queue/lru.go",S+"queue/lfu.go",S+"queue/genericF.go",S+"queue/base.go",S+"simpleCache.go",S+"lruDatasetVerifier.go",S+"randomCache.go"],
[("ordered queues with lazily corrected indexes","queue/*.go insert, update, findIndex, removeWorst"),("prefix of worst files up to a size","getWorstFilesUp2Size"),("eviction","SimpleCache.Free")],
[dict(name="queue order",meaning="files from worst to best",where=S+"queue")],["HIT/MISS/ADD/DELETE events","order of FILES records in a dump","hit counters"])

p("C03","Request, data and space accounting balance",
"Over any period, requests handled equal hits plus misses, data read equals data read on hits plus data read on misses, and each equals the sum over the individual requests. Data written minus data deleted equals the change in occupied space, and files admitted minus files evicted equals the change in the number of files held. Hit rates, free-space mean and deviation, and CPU-efficiency figures are the exact functions of those requests, and starting a new period zeroes the period figures without changing the contents (evictions a learned policy makes at day end belong to the new period).",
["histories","configurations","schedules"],
"every cache type and option mix, every request history and every placement of period boundaries",
"No test reads the statistics after a sequence with evictions, rejected files, redirects and several periods.",
[S+"simpleCache.go",S+"aiRL.go",S+"weightFun.go",S+"infiniteCache.go",S+"simulation.go"],
[("counters updated after each request","AfterRequest"),("eviction counters","Free, callEvictionAgent"),("period reset","ClearStats")],
[],["daily result rows","getters of the cache interface"])

p("C04","A hot restart from a dump continues as if never stopped",
"Saving a cache's full state and loading it into a fresh cache with the same configuration restores the same files, the same occupied space, the same eviction order the same per-file request history and the same learned values. From then on the restarted cache answers every request sequence with the hits, admissions and evictions that follow from that state (the clean-up clock, period figures, exploration rate, random choices and decisions awaiting a reward start anew). Saving does not itself change the cache.",
["histories","crash_points","configurations"],
"every reachable cache state, every moment of saving, every continuation; all cache types that support dumps, learning caches included",
"No test loads a dump, let alone keeps using the restored cache.",
[S+"simpleCache.go",S+"weightFun.go",S+"aiRL.go",S+"aiRLCatStateManager.go",S+"files/stats.go",S+"ai/qlearn/qlearn.go"],
[("JSON records per file and per statistic","Dumps / Loads"),("gzip line file","Dump / Load")],
[],["records of a dump before and after a round trip","hits, evictions and sizes after the restart","simulation runs with dump and loaddump"])

p("C05","A damaged or unreadable dump is never silently used",
"If a dump file is truncated, has flipped, zeroed or missing bytes, holds a record that is cut or of the wrong kind, or cannot be read completely because of a storage error, starting from it either stops with an error or yields exactly the state that was saved. A run never continues from partial, empty or altered state. Reads that return fewer bytes than asked for do not change what is loaded.",
["fault_sequences","crash_points","inputs"],
"every truncation length, byte change and read fault over dumps of every reachable state",
"No test reads a dump file; a damaged file needs a storage fault that unit tests never produce.",
[S+"simpleCache.go",S+"aiRL.go",S+"weightFun.go"],
[("gzip checksum and JSON decoding errors stop the run","Load, Loads")],[],["exit of a run with loaddump","state after the load"])

p("C06","Same inputs, configuration and seed give the same results",
"Two runs with the same input data, configuration and random seed produce identical result rows, event logs, run totals, learned tables and saved contents. The outcome does not depend on goroutine scheduling, on the iteration order of in-memory maps, on how reads are split, on the time zone-independent wall clock or its jumps, or on how fast the machine is.",
["schedules","inputs","configurations","fault_sequences"],
"every interleaving, map iteration order, read splitting and clock behaviour, for every cache type and configuration",
"A test runs once under one schedule and one map order and cannot compare two executions.",
[S+"simulation.go",S+"simpleCache.go",S+"queue/none.go",S+"aiRL.go",S+"aiRLCatStateManager.go",S+"ai/featuremap/featuremap.go",S+"ai/qlearn/qlearn.go",S+"randomCache.go"],
[("explicit seed","rand.NewSource(RandSeed)"),("single consumer of the record stream","Simulate"),("sorted input file list","OpenSimFolder")],[],["all output files of a run"])

p("C07","Every input record is consumed exactly once and in order",
"Reading a data file, plain or compressed, or a folder of data files yields each data row exactly once with the file's values of the columns the simulation uses, in row order within a file and in file-name order across files, and then ends. Column order in the header does not matter. An input that cannot be read, is cut-off compressed data or is not well-formed CSV with each of the required columns once stops the run with an error and is never taken for the end of the data.",
["schedules","fault_sequences","inputs"],
"every scheduling of producer and consumer, every split of reads, every read or open fault, all file sizes and folder contents",
"The reader has no test; losing or duplicating a row depends on scheduling, buffer boundaries or read errors.",
[S+"simulation.go"],[("producer goroutine and bounded channel","recordGenerator"),("file ordering","OpenSimFolder"),("header mapping","getHeaderIndexes")],[],["the record stream","totals in the run statistics"])

p("C08","Each record is classified once and each completed day is reported once",
"Every record read is counted once as jumped, filtered, invalid, redirected or handled, and only records of the configured windows that pass the success, data-type and region filters and have a valid CPU efficiency reach the cache. Each completed day inside the window range gives exactly one result row, in order, labelled with the day it covers and containing exactly that day's requests. Records before the first window never change the cache, and none is processed from the stop window on.",
["inputs","histories","configurations","schedules"],
"every trace with arbitrary gaps between records, every window size, start and stop, every region filter",
"There is no test of the driver; the boundaries (exactly 23 hours, several days apart, first and last window) are never exercised.",
[S+"simulation.go","SmartCache/sim/main.go"],[("day change test and period reset","Simulate"),("window counters","Simulate"),("filters","Check of each filter")],[],["simulation_results.csv","simulation_run_stats.json"])

p("C09","The event log is complete, ordered and finished with the run",
"When event logging is on, the log of a run that ends normally holds exactly one entry for every hit, miss, admission, eviction, forced trim, skip and redirect the cache performed, in the order performed, with the sizes at that moment. No entry is lost, repeated or reordered however the logging goroutine is scheduled. A run with logging on always terminates.",
["schedules","histories","configurations"],
"every scheduling of the cache and the log writer, bursts longer than the log buffer, every cache type that logs",
"Tests run with logging off; lost or reordered entries depend on the schedule and on the exit handshake.",
[S+"simpleCache.go",S+"randomCache.go",S+"aiRL.go",S+"simulation.go",S+"weightFun.go",S+"lruDatasetVerifier.go"],
[("bounded channel to one writer goroutine","toLogBuffer, Init"),("exit sentinel and done channel","flushAndCloseLog")],[],["simulationLogFile.csv.gz"])

p("C10","A failed write never passes for a finished output",
"If writing, flushing or closing any output of a run fails - results, run statistics, event log, dump, learned tables, configuration copy - the run ends with an error. A run that reports success has left every requested output complete and readable. No storage fault makes the run hang.",
["fault_sequences","schedules"],
"every storage operation failing with a full disk, I/O error or partial write, transient or persistent, under every schedule",
"Tests never make a write fail.",
[S+"simulation.go",S+"simpleCache.go",S+"aiRL.go"],[("panic on write errors","OutputCSV, Dump, writeQTable, Simulate")],[],["exit status and output files of a run under faults"])

p("C11","Watermarks bound occupancy after every request",
"With watermarks enabled, after every handled request the cache is below the high watermark, or has just been trimmed to at most the low watermark. A trim happens only when the high watermark is reached, removes files in policy order, and removes no more than needed to get down to the low watermark. With watermarks disabled, and in a cache whose evictions are decided by a learned policy, no such trim ever happens.",
["histories","configurations","crash_points"],
"every watermark pair, cache type and request history, and restarts in between",
"No test enables watermarks.",
[S+"simpleCache.go",S+"base.go",S+"aiRL.go"],[("watermark check after each request","CheckWatermark, GetFile")],[],["capacity after each request","FREE and DELETE events"])

p("C12","Requests are redirected exactly when the bandwidth is used up",
"With redirection enabled, a request is redirected exactly when it is a miss and the data read on misses in the current period is at least 95 percent of the configured bandwidth. A redirected request changes neither the contents nor any request or data figure other than the redirect count and size. Hits are always served, and a new period makes the bandwidth available again.",
["histories","configurations"],
"every bandwidth, request history and placement of period boundaries, with redirection on and off",
"No test enables redirection.",
[S+"simpleCache.go",S+"base.go",S+"simulation.go"],[("redirect test before handling a miss","CheckRedirect, GetFile")],[],["REDIRECT events","redirect columns and totals"])

p("C13","Per-file history is exact and survives as long as promised",
"The request count, hit and miss counts, last-request time, recent request times and request distance that a cache of bounded size keeps for a file are exactly those of its requests since its history began. The history of a file that is held, or was requested within the retention period, is never dropped; a file's history older than the retention period is dropped at the next periodic clean-up. Dropping one file's history never affects another's.",
["histories","configurations"],
"every trace with arbitrary time gaps, retention period and clean-up period; more requests per file than the history can hold",
"One test creates a single statistic; clean-up, wrap-around of the stored times and files held through a clean-up are not reached.",
[S+"files/stats.go",S+"simpleCache.go"],[("periodic purge","Dirty, Purge"),("ring of recent request times","UpdateStats")],[],["STATS records of a dump"])

p("C14","Learned eviction removes only held files and keeps its books straight",
"In a cache with a learned eviction policy every held file belongs to exactly one category matching its features when it was last requested, and no other file does. An eviction round takes one decision per category present, removes from it all, half, a quarter, one or none of its files accordingly, and counts each decision and each removed file once. After the round, space, category sizes and contents agree, whatever the interleaving with the category producer.",
["schedules","histories","configurations"],
"every interleaving of the category producer with the evicting consumer, every feature map, trigger (every k requests, when full, at day end) and request history",
"No test builds a learned eviction cache.",
[S+"aiRL.go",S+"aiRLCatStateManager.go"],[("category index maps","CategoryManager"),("state generator goroutine","GetStateFromCategories"),("application of decisions","callEvictionAgent")],[],["DELETE and KEEP events","action counters and category counts in results","size after each request"])

p("C15","Learned values are exactly those the learning rule yields",
"The value tables of the admission and eviction agents always equal what the update rule gives when applied once, in order, to every rewarded decision of the run with the reward that decision earned. A decision is rewarded when a later request calls for it, only from requests of what it concerned, and states and actions are never confused with others. The tables written at the end of a run show those values.",
["histories","schedules","configurations"],
"every request history, feature map and learning type",
"Tests cover one-hot encoding and table creation, not a learning step.",
[S+"ai/qlearn/qlearn.go",S+"aiRL.go",S+"ai/featuremap/featuremap.go"],[("update rule","UpdateTable"),("delayed rewards","delayedRewardAdditionAgent, delayedRewardEvictionAgent"),("state indexing","FeatureIdxs2StateIdx, Index")],[],["additionQTable.csv, evictionQTable.csv","value columns of the results"])

p("C16","The exploration rate only decays, within its bounds, and never hangs",
"The exploration rate of each agent starts at its configured value, never goes below its floor or above one, and only ever decreases between the moments the policy deliberately raises it. It is raised only when that is allowed by the configuration and after a run of worsening days at the floor. With the rate at zero the agents always take a best-valued action.",
["histories","configurations"],
"every request history, start and decay value including zero, and unleash setting",
"No test advances the exploration rate.",
[S+"ai/qlearn/qlearn.go",S+"aiRL.go"],[("exponential decay","UpdateEpsilon"),("restart of exploration","UnleashEpsilon, BeforeRequest")],[],["epsilon columns of the results"])

p("C17","The weight cache admits exactly files not heavier than the average",
"The average weight is always the mean of the current weights of all files with history, each weight being the configured function of that file's request count, size and request-time spread. A missed file is admitted exactly when its weight does not exceed that average and it fits after eviction, and otherwise nothing is evicted for it. Clean-ups, restarts and cold starts keep the average equal to that mean.",
["histories","configurations","crash_points"],
"every weight function and parameters, request history, clean-up moment and restart",
"The weight tests request a few fixed files; the running sum is never compared with the weights after clean-ups or restarts.",
[S+"weightFun.go",S+"files/stats.go",S+"functions/functions.go"],[("running weight sum","UpdateWeight, Purge, Clear"),("admission test","WeightFun.UpdatePolicy")],[],["hits and admissions","average weight in the run statistics"])

p("C18","Finished results are never lost or mistaken for unfinished ones",
"Without the overwrite option a run whose results are already present, with at least one completed day, leaves every file of the earlier run unchanged; where the earlier results hold no completed day, the run takes place in full. A run that resumes from a dump keeps the earlier results under a name no earlier resume used, so after any number of resumes every earlier result is still there, byte for byte. This holds wherever the dump is stored and wherever earlier runs were interrupted.",
["crash_points","histories","configurations"],
"every sequence of fresh, repeated and resumed runs, every dump location, every crash point inside any of them",
"Needs several runs of the program over one folder with crashes in between.",
[S+"simulation.go",S+"utils.go","SmartCache/sim/main.go"],[("already-done test","simCommand"),("renaming of earlier results","Simulate, GetSimulationRunNum")],[],["contents of the result folder after each run"])

p("C19","Saving a dump is all-or-nothing",
"If a run crashes or its storage fails while saving a dump over an earlier one, the file afterwards holds either the complete earlier dump or the complete new one. A dump whose saving was reported successful is complete and loadable. A run that does not save never alters an existing dump. Whatever an interrupted save left behind, the next run that saves leaves the same dump as if nothing had been interrupted.",
["crash_points","fault_sequences"],
"a crash before, inside or after every storage operation of the save, with or without loss of unsynchronised data, and every storage fault",
"No test crashes a save.",
[S+"simpleCache.go",S+"aiRL.go"],[("write and close of the compressed dump","Dump")],[],["the dump file after a crash","a restart from it"])

p("C20","A cold start empties the cache and keeps or drops the history as asked",
"Starting from a dump with a cold start gives an empty cache of zero occupied space whose first request for any file is a miss. Without the no-statistics option every file's request history is kept, its request distances counting anew; with it no request history of the earlier run remains. The configuration - capacity, policy, watermarks, bandwidth - is the new run's.",
["histories","configurations","crash_points"],
"every saved state and configuration",
"No test performs a cold start.",
[S+"simulation.go",S+"simpleCache.go",S+"files/stats.go"],[("clear after load","ClearFiles, Clear")],[],["first requests after the start","dump records"])

p("C21","Every run over finite input terminates",
"Without faults, every run over finite input ends normally, having written all requested outputs, whatever the scheduling of its goroutines and the behaviour of the clock. With a storage fault or after the consumer stops early at the stop window, the run still ends, normally or with an error. No request makes the cache loop or wait forever.",
["schedules","fault_sequences","configurations"],
"every schedule, including stalled goroutines, clock jumps and slow storage, every cache type and configuration",
"A deadlock or an endless loop needs a particular schedule, channel fill level or parameter value.",
[S+"simulation.go",S+"simpleCache.go",S+"aiRLCatStateManager.go",S+"ai/qlearn/qlearn.go"],[("closing of channels by producers","recordGenerator, OpenSimFolder, GetStateFromCategories"),("log exit handshake","flushAndCloseLog")],[],["end of the run"])

Q="qLearning_smartCache/"
p("C22","The Q-learning study learns from the action taken, the same in every run",
"An update of the study's table changes the value of the given action in the given state and nothing else, to old + rate * (reward + decay * best - old) with best the state's greatest value before the update and one rate for all updates; values are read, compared and printed for the same action whatever the order in which the actions were listed. Every state that can be formed has exactly one row, and a value falls in the first bucket whose bound it does not exceed, or else the last. The study's cache never holds more than its size: inserting a file evicts the files of least value (size times requests) first and only until it fits, evicts nothing when the file is already held or could never fit, and always ends; size, points, occupancy and least value are those of the files held. The study prints the same rewards and tables in every run, each step's reward being the value of the files held after the action chosen (at random while the draw does not exceed epsilon, else the best), with epsilon decaying from its maximum to its minimum by episode.",
["histories","schedules","configurations"],
"every sequence of requests, insertions, removals and updates, every set of features and order of actions, every schedule and map iteration order",
"The program has no tests; its outcome depended on map iteration order and on cooperation of table, cache and main loop.",
[Q+"main.go",Q+"qtable/qtable.go",Q+"cache/cache.go"],[("update rule","QTable.Update"),("state enumeration","genStates, GenCurState, GetStateIdx"),("eviction","SimCache.Insert, GetMinValue"),("episode loop","main")],[],["GetAction, GetBestAction, printed table","GetSize, GetPoints, GetMinValue","printed rewards"])

p("C23","The certificate helper leaves a complete, matching pair or reports failure",
"When the helper reports success, cert.pem is exactly one self-signed server certificate and key.pem exactly the matching private key, of the requested kind, for exactly the requested hosts (addresses as addresses, names as names), valid from the requested date or else the time of the run for the requested duration, a certificate authority only if requested, and a newly created key is readable by its owner only. Files of an earlier run are replaced completely. Invalid arguments or any failure to store either file end the run with an error status, and a file announced as written is complete even if the run is interrupted afterwards; running again after an interruption gives a complete pair.",
["fault_sequences","crash_points","configurations"],
"every argument combination, every storage fault and crash point, whatever files were there before",
"The helper has no tests; faults and crashes between its two files cannot be timed by hand.",
["minio/generate_cert.go"],[("checked writes and closes","main")],[],["exit status","cert.pem, key.pem"])

D="DataManager/collector/"
p("C24","JSON data files give back the records appended, in order, or an error",
"Records appended to a JSON data file (plain, gzip or bzip2), in one session or several, from dicts, JSON strings, lists or generators, are read back equal, complete and in the order appended, whether by iteration, in chunks, by index (also from the end), by slice, from a start position, or after saving and restoring the position; the length is their number. Asking for the length, an index, a slice or the raw data leaves an iteration that is under way where it was. This holds however the reads are split and whatever the records hold (nested, non-ASCII, long, with line breaks). A file whose last record has no final newline is read completely. If writing, flushing or closing fails, or a read fails, or the file is cut-off or damaged compressed data, the user gets an error: never a silently shortened, reordered or altered sequence of records. A file left by a crash reads as an error or as the first of the records appended.",
["histories","fault_sequences","crash_points"],
"every sequence of appends, re-openings and reads of JSON object records, every way the storage splits reads and writes, every storage fault, crash point and damage to a compressed file (except after the first stream of a bzip2 file of several, which the library ignores by design)",
"The tests of this part need downloaded data and append two records to one plain file; no test faults the storage, cuts a compressed file, or mixes indexing with iteration.",
[D+"datafile/json.py",D+"datafile/utils.py",D+"api.py"],[("line gathering, start positions, chunks","JSONDataFileReader"),("record encoding and flush","JSONDataFileWriter.append"),("compressed files","datafile.utils"),("dispatch on the file type","api.DataFile")],[],["records returned by the reader","exceptions raised to the user","bytes of the file"])

p("C25","A stage's output holds exactly the records its input gives, however it is run",
"Running a stage, or a pipeline of stages, over batches of input processes every batch exactly once: the output, the result, the saved stage and the saved dataset (compressed data and its counts) hold exactly the records produced, none missing, none twice and none altered, whatever the number of processes, the batch sizes, the order and speed in which processes run, the capacity of the pipe between them, and, over Spark, the partitions and the tasks that are lost and run again; and never more processes run at once than allowed. A stage on CMS records keeps the analysis records (raw), the data and simulation records with their features and an id given by those features (featured), or sums them by feature set and classes those from the average score on good. When a process fails or is killed or cannot be started, or the source or the storage fails, the user gets an error, never a stage or dataset with missing or repeated records. Every run ends, also after an error.",
["schedules","fault_sequences","configurations"],
"every sequence of input batches of flat records, every number of processes, every interleaving and speed of processes, queue feeders and pipes, every process or storage fault (a stage that yields no record at all may end with an error)",
"The tests of this part need downloaded data and a network; no test runs two processes against each other, fills a pipe, kills a process or faults the storage.",
[D+"dataset/stage.py",D+"dataset/generator.py",D+"dataset/resource.py",D+"dataset/utils.py",D+"datafeatures/extractor.py"],[("process pool and queue","Stage.run"),("batches","Stage.split, input"),("tasks","process, reduce of the stages"),("saving","Resource.set, CMSDatasetV0.save")],[],["records and counts returned","files written","exceptions raised to the user","end of the program"])

A="DataManager/agent/api.py"
p("C26","Remote storage calls succeed only if the server did exactly what was asked",
"Against an HDFS server over HTTP: a creation that reports success has left exactly the given bytes, of a file or a stream, under exactly the given path, and without leave to overwrite destroys no file; opening gives exactly the file's bytes whatever the chunk size, framing or compression of the answer; listing, making directories and deleting report what the server answered; each call acts on the given path only (whatever characters are in it), as the given user with the given credentials, and, if asked to verify certificates, with a verified server only. Documents put to a search engine, one or many, are stored each once, unaltered, under an id given by their content, so that putting them again adds nothing. Reading a window of days (over HTTP, HDFS or local) gives the records of every file of every day once, in the order of the days; the days of a window are those from its start, by step, up to its end. Saving a stage over HTTP or to a local folder leaves the complete compressed data there. A refused or broken connection, an error or a redirect for an answer, a cut-off download, a missing day or a local read or write error gives an error or a failing answer: never a reported success with missing, old, repeated or foreign content. Without a fault every permitted call succeeds.",
["fault_sequences","histories","configurations"],
"every sequence of calls, every path and content, every fault of connection, server and local disk, other clients acting between requests (servers that answer the protocol of Hadoop 2 HttpFS or WebHDFS; a server that never answers is not covered)",
"No test contacts a server; none can time a broken connection, a cut-off answer or another client between two requests.",
[A,D+"dataset/resource.py",D+"dataset/utils.py"],[("requests and their answers","HTTPFS"),("ids and bulk requests","ElasticSearchHttp.put"),("days and files","CMSResourceManager.get, gen_window_dates"),("saving","CMSResourceManager.set")],[],["values returned and exceptions raised to the user","files and documents on the server"])

p("C27","Days moved or filtered between storages arrive whole, or the run fails",
"The scripts that move the daily logs of a period from HDFS to an object storage (move_data_hdfs2minio), and that filter them there (filter_analysis_logs, filter_analysis_data-mc_logs): when a run ends well, the target bucket holds under the name of every day of the period (consecutive calendar days from the start date) exactly that day's content: the file's bytes (move), or, in order, the day's records whose type is analysis in any case (filters), for data-mc only those whose file name has data or mc as its second part (bucket NAME-analysis and NAME-analysis-data-mc). A day said to be done is stored whole at that moment. At every moment, also when a run is killed, an object under a day's name is the one that was there before or the whole day, never a partial day or another day's content, and no other object is touched. A day that is missing, a failed or partial download, a refused or broken upload or a local disk error ends the run with an error. Without a fault a run ends well and leaves no local file behind, and a filtering run does so also over what an interrupted run left in the folder.",
["fault_sequences","crash_points","histories"],
"every period and day content (records with the fields the filters read), every failure of the hdfs command, the object storage and the local disk, every crash point, and later runs in the same folder (one run at a time in a folder; an object is stored whole or not at all, as the storage does)",
"There are no tests of these scripts; a failed upload, a download that breaks or a run killed between two days has to be timed.",
["scripts/move_data_hdfs2minio.py","scripts/filter_analysis_logs.py","scripts/filter_analysis_data-mc_logs.py",D+"api.py",D+"datafile/json.py"],[("download, store, remove","move_data_hdfs2minio.main"),("download, filter, store","filter_analysis_logs.main, filter_analysis_data-mc_logs.main"),("days of the period","period")],[],["objects in the buckets","exit status","the days said to be done"])

p("C28","Avro data files give back the records appended, in order, or an error",
"Records appended to an Avro data file (by name, on an open file or in memory; with a schema given or deduced from the first record; in one session or several) are read back equal, complete and in the order appended: by iteration, in chunks, by index, by slice, as raw data, through DataFile or after pickling it; the length is their number. Looking at the file in between (length, index, slice, raw data) leaves an iteration that is under way where it was, and data appended later is seen by a later reader. If writing, flushing or closing fails, or a read fails, or the file is cut off within a record block, the user gets an error: never a silently shortened, reordered or altered sequence of records. What an interrupted writing leaves reads as an error or as the first of the records appended, and an interrupted appending does not lose earlier ones that are still readable.",
["histories","fault_sequences","crash_points"],
"every sequence of appends, re-openings and reads of records of one form (plain values, lists and maps of plain values, one nested record; a list or map is not empty in the first record, from which the form is deduced), every way the storage splits reads and writes, every storage fault and crash point",
"The tests append two records once and read them in order; none reads a file in two ways at once, appends in a second session, or faults the storage.",
[D+"datafile/avro.py",D+"datafile/utils.py",D+"api.py"],[("reading, indexing, length","AvroDataFileReader"),("appending","AvroDataFileWriter.append"),("form of the records","datafile.utils.AvroObjectTranslator"),("dispatch on the file type","api.DataFile")],[],["records returned by the reader","exceptions raised to the user","bytes of the file"])

p("C29","The converter gives every value one number, the same in every file and run",
"The converter of the request files (python -m probe.converter PATH, for a file or a folder of results_*.csv and .csv.gz files, with a region and optionally a shuffle seed) writes beside each input a numeric file results_numeric_REGION_[shuffle_SEED]* that has the same rows (of that region; in the same order, or with a seed in an order that only depends on the seed) and columns (Region, Campain and Process added if missing, and the day in .gz files), the numbers and dates unchanged and each text replaced by a number. For one region, a value of a text column has the same number in every numeric file and every run, and two values of a column never share one; the category database container_REGION_.pickle and its inspection (categories, all.COLUMN, valueOf.COLUMN.VALUE) give exactly these numbers. A run that ends well leaves a whole numeric file for every input; inputs, and numeric files already there, are not touched and numeric files are not themselves converted. At every moment, also after a run was killed or failed because of the disk or a refused process, a numeric file that is there is whole and its numbers are those of the database, and a later run goes on from there and keeps all numbers given before.",
["histories","fault_sequences","crash_points"],
"every set of request files and every sequence of runs over them (files added, outputs removed to be made again, other regions and seeds), every storage fault and crash point (one run at a time, no missing values or files without rows, no --order-folder, no pool worker killed)",
"There are no tests of the converter; values that come back in another file, and a crash between two files, need a history and a fault at a given point.",
["Probe/probe/converter/__main__.py","Probe/probe/converter/utils.py","Probe/probe/converter/extractor.py","Probe/probe/converter/inspect.py","Probe/probe/loaders.py"],[("files, order of saving","converter.__main__.main"),("numbers","CategoryContainer"),("text to numbers","convert_categories"),("saving","save_numeric_df"),("loading","loaders.gen_csv_data")],[],["numeric files","output of the inspection","exit status"])

p("C30","Feature tables turn every value into one index, the same in every process",
"For a table of feature values filled by insertions and then indexed, the indexes of a feature's values are 0 to n-1, one per value (with the unknown value unless asked not to), ascending by their order without regard to case and then exactly; they depend on the values inserted only, not on the order, the process or its hash seed. Looking up a value gives its index; a close look-up gives the value's own index, or else that of the longest value of the table it begins with, or else the unknown value's, or else an error; converting a record gives, in the order of the sorted features, index over size or one hot. After further insertions or a reduction of categories (by their first words) and indexing again, all look-ups give the new indexes. A table saved and loaded in another process (pickled, with what is not indexed yet, or as a dictionary in JSON) answers the same. The reader of the analysis dataset makes its table from the data file; its train set has the records' rows in order with their labels (one hot if asked), and for k folds, k at most the number of records, the train and validation parts of each fold are together exactly all rows and no row is in two validation parts. A file that cannot be read gives an error.",
["histories","fault_sequences","configurations"],
"every sequence of insertions, indexings, reductions (at level 0), look-ups, savings and loadings over processes with other hash seeds, every set of values, every read error",
"The tests of the table insert a handful of values once in one process; none indexes twice, saves a table, or compares processes.",
[D+"dataset/utils.py",D+"dataset/reader.py"],[("insert, index, look up, reduce, save","SupportTable"),("train set and folds","CMSDatasetTest0Reader")],[],["indexes and converted records","rows of train set and folds","exceptions raised to the user"])

p("C31","Putting a file to a search engine stores every record once, or fails",
"The command line of the agent (python -m DataManager.agent). put SOURCE DEST, one by one or with --bulk in buckets of any size, and with --start-from-index: a run that ends well has every record of the data file from the start index on in the search engine, unaltered, each once, also when it was there before or the server saw a request twice, and no record before the start index was put by it; it reports the number of records of the file. When it says that a record, or that so many records, were inserted, they are there; when it says at which index it failed, all before it are there. Nothing else is stored, removed or replaced. A broken connection, a refused record or bucket, a bucket of which the server takes only a part, an answer that is none, and a source that cannot be read to the end, end the run with an error status; a further run, from the start or from the index it named, completes it, also after a run that was killed. Without a fault a run ends well. get SOURCE INDEX shows exactly that record, or the records of that slice, of the file, or ends with an error.",
["fault_sequences","crash_points","histories"],
"every data file of JSON object records (gzip, bzip2) or flat records (Avro), every bucket size from 1 and start index from 0, every fault of connection, server and source at any request, kills between any two, and further runs (get: indexes, and slices upwards with an end; of an Avro file those inside the file)",
"No test runs the command line; a bucket that fills up at the last record, a server that takes half a bucket and a kill between two requests have to be arranged.",
["DataManager/agent/cli.py","DataManager/agent/__main__.py","DataManager/agent/api.py","DataManager/collector/api.py"],[("buckets, start index, status of the answers","cli.cli_main put"),("ids and bulk requests","ElasticSearchHttp.put"),("records shown","cli.cli_main get")],[],["documents in the search engine","exit status","what the program says"])

p("C32","Damaged or unreadable settings are never silently used",
"If a file a cache takes its settings from (the feature maps of the learning caches, plain or gzipped, and the gzipped list of the dataset's files) is truncated or missing or cannot be read completely because of a storage error, or is gzipped and has flipped, zeroed or missing bytes, or if the configuration file cannot be read, a run either stops with an error or gives exactly the results of a run with the intact files. Reads that return fewer bytes than asked for change nothing.",
["fault_sequences","inputs","configurations"],
"every truncation length, byte change and read fault of every settings file, for fresh runs and for runs that load a dump",
"The only test of feature maps parses one intact file; a damaged file needs a storage fault.",
[S+"ai/featuremap/featuremap.go",S+"lruDatasetVerifier.go",S+"aiRL.go",S+"aiNN.go","SmartCache/sim/main.go"],[("the end of the JSON text and the checksum of the gzip stream","featuremap.Populate, LRUDatasetVerifier.Init"),("configuration","viper.ReadInConfig")],[],["exit of a run","its results, events, tables and dump"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
