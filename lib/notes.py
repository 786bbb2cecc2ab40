MB = "runtime monitoring: model-based random histories on the real code under ASan+UBSan, compared with a reference model after every operation"
NOTES = {
 "P30": (MB, "random histories, bounded by case count; both copies of the hash table, set, open-addressing table"),
 "P31": (MB, "random histories on vector, deque, stack and list against std:: sequences"),
 "P32": (MB, "random histories on binary keys against a sorted map, structure re-read after every step"),
  "P33": (MB, "placements for random configurations against the storage rule of the index server; bounded by case count"),
 "P34": (MB, "random add/remove/check histories within capacity"),
 "P35": (MB, "random region pairs against element-by-element sets, exact-size buffers"),
 "P36": (MB, "random strings and patterns against their definition, exact-size heap blocks"),
 "P37": ("runtime monitoring: event log of job starts and ends under randomised schedules, checked offline for exactly-once, order and wait-means-done; ASan+UBSan", "schedules sampled, not enumerated"),
 "P38": (MB, "random documents, edits and corruptions in exact-size blocks"),
 "P40": (MB, "random file helper calls compared with the bytes really in the file, open files counted"),
 "P43": (MB.replace("histories", "inputs").replace("a reference model after every operation", "independent implementations that are themselves checked against published values"), "random byte strings up to a few hundred bytes, exact-size heap blocks, all alignments"),
 "P44": (MB, "up to 250 steps per history, at most a few hundred handles at a time, one thread; at the interface up to 120 calls per history in one or two clients"),
 "P45": (MB.replace("histories", "inputs").replace("a reference model after every operation", "the C types themselves"), "every known type in every case, random unknown numbers and names"),
 "P46": (MB.replace("histories", "inputs").replace("a reference model after every operation", "the distribution asked for, by distribution function distance"), "thousands of numbers per seed and distribution; false alarm probability per case below 1e-12, and the quick check's seeds are fixed"),
 "P41": (MB, "random stop watch and call profile histories on a clock the harness moves"),
 "P39": (MB, "random allocate/reallocate/free histories against a running total"),
}
MS = "runtime monitoring: model-based random call histories from several client processes against real ASan+UBSan servers over an in-process stand-in for the transport, every reply compared with a reference model"
for p, t in {
 "P01": "biased to creating, opening and looking up objects, races for one name", "P02": "biased to creating, opening and deleting containers",
 "P03": "every deletion is followed by a complete read-back", "P04": "biased to object tags", "P05": "biased to container tags, containers and objects sharing names",
 "P06": "biased to list-all and attribute queries", "P07": "biased to tag queries, single and collective", "P15": "biased to resizing",
 "P19": "ids handed out to concurrent creators compared with every id seen before", "P26": "biased to property lists and duplicates", "P28": "biased to opening, closing and iterating handles"}.items():
    NOTES[p] = (MS, "sampled histories, bounded by scenario count; " + t)
DS = "runtime monitoring: model-based random transfer histories from 1-3 client processes against real ASan+UBSan servers over an in-process stand-in for the transport; an element-level model of every object and caller buffer is compared with the real bytes at every completion"
for p, t in {
 "P09": "biased to overlapping writes and reads, buffers of every shape", "P10": "biased to several clients at once under small caches and a hyperactive flusher",
 "P11": "the same program under three settings (cache size and flushing, sieving, number of servers, partition), logs of results compared",
 "P12": "biased to refused and repeated starts, status polls and closing", "P13": "biased to batches of up to 16 mixed requests, split at random",
 "P14": "biased to closing and flushing objects with transfers outstanding", "P16": "biased to put and get"}.items():
    NOTES[p] = (DS, "sampled histories, bounded by scenario count; " + t)
RS = "runtime monitoring: model-based random histories from several client processes against real ASan+UBSan servers, "
NOTES["P17"] = (RS + "orderly closes and restarts in between, the reference model carried across", "sampled histories, bounded by scenario count; server count unchanged by a restart")
NOTES["P18"] = (RS + "servers killed at chosen messages and file calls after a completed checkpoint (fault injection at fwrite, fclose, rename), recovered state compared with the covered one", "crash points sampled; process death only, no loss of data the kernel had accepted")
NOTES["P20"] = ("runtime monitoring: an online monitor in the transport stand-in checks every message, bulk transfer and handle of real servers and clients under mixed random histories with injected delays", "sampled histories and schedules; the transport is a stand-in for Mercury; registered memory left behind (bulk handles) is not judged")
NOTES["P21"] = ("sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer builds of real servers and clients under mixed random histories, restarts and crashes", "sampled histories; alignment, function-type and pointer-overflow checks off; leaks not judged")
NOTES["P22"] = ("sanitizers: ThreadSanitizer build of the real server under random histories with a permanently busy flusher", "sampled schedules; happens-before detection, so a race needs both accesses but not the bad timing")
NOTES["P23"] = ("runtime monitoring: round trips of every message type's real encoder and decoder under ASan+UBSan, with random field values placed by a generator that reads the structure definitions, compared field by field", "random field values, bounded by case count; the transport's own encoders of basic types are stand-ins")
NOTES["P25"] = (MB, "random element types and distributions, every element re-counted against the bin bounds, merge trees re-summed; NaN excluded")
NOTES["P24"] = (RS + "client processes running freely with injected delays, then orderly closes; every call, process and server must end, with success and its state written", "sampled schedules; a hang is a call without answer for 60 s, twice")
NOTES["P08"] = (RS + "a model of the live index references compared with the answer to every query", "sampled histories, bounded by scenario count; range queries are not implemented; keys and values not empty; index state is not kept across restarts")
NA = {}
NA["P27"] = "The property does not hold at this commit for almost any input, so no monitor of it can be quiet: conditions are evaluated on the first 1/unit of the elements of a region, multi-dimensional coordinates are computed wrongly, alternatives on one object count elements twice, and reading the selected data ends the server. Recorded as a finding in DESIGN.md; a repair would be a rewrite of the query evaluation, not a small patch."
NOTES["P42"] = (RS + "a model of element values and of the holder of every lock follows each call; buffers, reads through locks and transfer reads are compared byte for byte, refusals and waiting requests with the model, and the recorded holding times of ranks racing for one lock must not overlap", "sampled histories; a region is mapped by one client at a time, and locks are compared for identical regions only, as the server does")
NOTES["P47"] = (RS + "then the real pdc_ls (ASan+UBSan) over their checkpoints with random options; its parsed listing is compared with the reference model, the bytes at the places it gives with the elements written", "sampled histories and options, bounded by scenario count; regions checked for data written once (overlaps superseded in the checkpoint are not told apart)")
