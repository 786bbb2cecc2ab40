import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
CC="src/api/pdc_client_connect.c"; CSC="src/server/pdc_client_server_common.c"; CSH="src/server/include/pdc_client_server_common.h"; SM="src/server/pdc_server_metadata.c"; SV="src/server/pdc_server.c"
RT="src/api/pdc_region/pdc_region_transfer.c"; OB="src/api/pdc_obj/pdc_obj.c"; CO="src/api/pdc_obj/pdc_cont.c"; SD="src/server/pdc_server_region/pdc_server_data.c"; RC="src/server/pdc_server_region/pdc_server_region_cache.c"; RQ="src/server/pdc_server_region/pdc_server_region_transfer.c"; MQ="src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c"
NOCI="The project's own integration tests need Mercury and MPI, run one fixed script each, and most print rather than assert. "
p("P01","Object names are a consistent namespace shared by all clients",
 "Once an object creation has succeeded, every client that looks the object up by its name (or opens it by its ID) gets that same object with exactly the attributes it was created with (name, dimensions, type, time step, owner, application), until it is deleted. Creating an object whose name, time step, owner and application are already taken is refused and leaves the existing object unchanged, and a name that was never created (or was deleted) cannot be opened.",
 ["histories","inputs","configurations"],"All sequences of create/open/close/delete by any number of clients, all names, any server count, any message timing.",
 NOCI+"They create a handful of distinct, friendly names and never look one up from a second client or after a refused duplicate.",
 [OB,CC,SM,CSC],[("PDCobj_create / PDCobj_open",OB),("PDC_Client_send_name_recv_id, name hash to server",CC),("PDC_insert_metadata_to_hash_table, find_metadata_with_name, PDC_metadata_cmp",SM)],
 [("metadata_hash_table_g","per-server table of object metadata",SM)],["results of PDCobj_create/open/get_info"])
p("P02","Container names are a consistent namespace shared by all clients",
 "A container created by name can be opened by that name from every client and yields the same container, creating it again yields the existing container, and opening a name that was never created or has been deleted fails. Different names denote different containers.",
 ["histories","inputs","configurations"],"All sequences of container create/create-collectively/open/close/delete by any number of clients, any names, any server count.",
 NOCI+"They create a couple of containers with fixed names from one client.",
 [CO,CC,SM],[("PDCcont_create / PDCcont_create_col / PDCcont_open / PDCcont_del",CO),("PDC_Client_create_cont_id, PDC_Client_query_container_name",CC),("PDC_Server_create_container, PDC_Server_find_container_by_name, container hash table",SM)],
 [("container_hash_table_g","per-server table of containers",SM)])
p("P03","Deleting an object removes that object and nothing else",
 "After a successful deletion the object can no longer be opened, found or listed, its name becomes free for a new object, and no other object, container, tag or data value changes. Deleting something that does not exist reports failure and changes nothing.",
 ["histories","inputs"],"All histories of interleaved creations, tag updates, writes and deletions over objects that share servers, hash buckets and name prefixes.",
 NOCI+"They delete one freshly created object and stop.",
 [OB,CC,SM],[("PDCobj_del",OB),("PDC_Client_delete_metadata_by_id",CC),("PDC_Server_delete_metadata_by_id",SM)])
p("P04","Object tags read back exactly as last put",
 "A tag put on an object is returned by a later get of the same name, from any client, with the same value bytes, size and type; deleting a tag makes a get of it return no value while all other tags of this and every other object are unaffected. Getting a tag that is not there is distinguishable from getting one that is.",
 ["histories","inputs"],"All tag names, types, sizes (one byte to many kilobytes, binary content included) and interleavings of put/get/delete over several objects and clients.",
 NOCI+"They put and get two or three short tags per object.",
 [OB,CC,SM],[("PDCobj_put_tag / get_tag / del_tag",OB),("PDC_add_kvtag / PDC_get_kvtag / PDCtag_delete",CC),("PDC_Server_add_kvtag, PDC_Server_get_kvtag, PDC_Server_del_kvtag",SM)])
p("P05","Container tags read back exactly as last put",
 "A tag put on a container is returned by a later get of the same name with the same value bytes, size and type, and disappears after deletion; tags of containers and of objects never mix, even when a container and an object have the same name.",
 ["histories","inputs"],"All tag names, sizes and interleavings over several containers, with objects whose names equal or collide with container names.",
 NOCI+"They tag one container with a fixed string.",
 [CO,CC,SM],[("PDCcont_put_tag / get_tag / del_tag",CO),("PDC_Server_add_kvtag, PDC_Server_get_kvtag, PDC_Server_del_kvtag",SM)])
p("P06","Metadata listing and attribute queries return exactly the matching objects",
 "Listing all metadata returns every live object exactly once and nothing else, and a query by attributes (name, owner, application, time-step range, tag text) returns exactly the live objects that satisfy it. Every record returned carries the attributes its object was created with.",
 ["histories","inputs","configurations"],"All populations of objects reached by creations and deletions on any number of servers, and every combination of query attributes.",
 NOCI+"They list a population they created themselves in one pass, without deletions, and check only counts.",
 [CC,SM,CSC],[("PDC_Client_list_all, PDC_partial_query",CC),("PDC_Server_get_partial_query_result",SM)])
p("P07","Tag queries without an index return exactly the matching objects",
 "A tag query by exact name and value or by wildcard patterns returns exactly the live objects having a tag that matches, each once, whichever server holds them. The collective form gives every participating client the same complete set.",
 ["histories","inputs","configurations"],"All tag populations reached by puts and deletions, all name/value patterns, any number of servers and clients (including more clients than servers and the reverse).",
 NOCI+"They query one tag on objects they created themselves and compare only counts.",
 [CC,SM,"src/commons/utils/query_utils.c"],[("PDC_Client_query_kvtag, PDC_Client_query_kvtag_mpi, PDC_Client_query_multi_kvtag",CC),("PDC_Server_get_kvtag_query_result, _is_matching_kvtag",SM)])
p("P08","Indexed metadata queries agree with the references inserted",
 "After a reference has been inserted into the distributed metadata index under a key and value, exact, prefix, suffix and infix queries on key and value return that reference exactly when key and value match the pattern, and it stops being returned once it is deleted. Deleting one reference leaves all others in place.",
 ["histories","inputs","configurations"],"All histories of index insertions and deletions over keys and values of any length that overlap in prefixes and suffixes, all four query kinds, all index placement algorithms offered, any server count.",
 NOCI+"They insert one family of long random keys and query each once; short keys, deletions and shared references are not tried.",
 [CC,"src/server/pdc_server_metadata_index.c","src/commons/index/dart/dart_core.c","src/commons/collections/art.c"],[("PDC_Client_insert_obj_ref_into_dart, PDC_Client_delete_obj_ref_from_dart, PDC_Client_search_obj_ref_through_dart",CC),("metadata_index_create, metadata_index_delete, metadata_index_search","src/server/pdc_server_metadata_index.c")])
p("P09","A region read returns the values last written to it",
 "After a region write has been waited for, reading any region of the object returns, for every element, the value of the last write covering it, whatever the shape, offset, element type or dimensionality, and whatever the shape of the memory region that is used on the client side. Elements outside the written regions are not changed by the write.",
 ["inputs","histories","configurations"],"All sequences of overlapping, nested, adjacent and partial region writes and reads on 1-, 2- and 3-dimensional objects, all element types, all data partition and consistency settings.",
 NOCI+"They write one whole region (or one fixed sub-block) and read the same one back.",
 [RT,RQ,RC,SD,"src/utils/pdc_region_utils.c"],[("PDCregion_transfer_create/start/wait",RT),("PDC_Server_transfer_request_io, PDC_transfer_request_data_write_out, PDC_transfer_request_data_read_from","src/server/pdc_server_region"),("PDC_Server_data_write_out, PDC_Server_data_read_from",SD)])
p("P10","Completed writes are visible to every client and never lost",
 "Once one client's write has completed, every later read by any client sees it, and concurrent writes by different clients to disjoint regions of one object all survive. No update is lost or resurrected by later background flushing.",
 ["schedules","histories","configurations"],"All interleavings of region writes and reads from several clients with background cache flushing on any number of servers.",
 NOCI+"They give each rank its own block once, wait at a barrier and never let a flush run in between.",
 [RT,RC,SD],[("region cache: PDC_region_cache_register, PDC_region_cache_flush, PDC_region_cache_clock_cycle",RC),("storage regions: PDC_Server_data_write_out",SD)],[("obj_cache_list","per-server cached regions",RC)])
p("P11","Cache, storage and placement settings never change results",
 "The same program produces the same results whatever the server cache capacity and flush interval, the number of servers, the data partition chosen for the object and whether data sieving is on.",
 ["configurations","histories"],"All combinations of the documented run-time settings applied to the same sequence of operations.",
 NOCI+"Every test runs under the single default configuration, in which the cache never fills and never flushes before shutdown.",
 [RC,SD,RT,MQ],[("PDC_SERVER_CACHE_MAX_SIZE / PDC_SERVER_CACHE_FLUSH_FREQUENCY_S handling, PDC_region_cache_flush_all",RC),("static_region_partition, PDC_Client_transfer_request_metadata_query",RT)])
p("P12","Transfer requests follow their lifecycle and touch only their own bytes",
 "A request that has been started stays pending until its transfer is done, is then reported complete exactly once (by a status call or by the wait that completes it) and afterwards counts as not started, so it can be started again; starting a request again before its completion was reported is refused, and waiting on a request that was never started, closing it, or refusing a call has no effect on data. When completion is reported or the request is closed, a read has filled exactly the selected elements of the caller's buffer and changed nothing else in it, and a write never changes the caller's buffer.",
 ["histories","inputs"],"All orders of create, start, status, wait and close over several requests and all region shapes, with guard bytes around every buffer.",
 NOCI+"They always run create, start, wait, close in that order and look only at the selected elements.",
 [RT,RQ],[("PDCregion_transfer_start, PDCregion_transfer_status, PDCregion_transfer_wait, PDCregion_transfer_close",RT),("transfer request status list","src/server/pdc_server_region/pdc_server_region_transfer.c")])
p("P13","Starting and waiting for requests in a batch equals doing them one by one",
 "Starting a set of transfer requests together and waiting for them together (or in any split of starts and waits) leaves the same data in objects and buffers as performing the requests one at a time, for requests that do not conflict.",
 ["inputs","histories","configurations"],"All sets of requests mixing objects, partitions, reads and writes, dimensionalities, sizes and directions; all splits into single and batched starts and waits.",
 NOCI+"They batch equal requests on equally shaped objects and wait for all of them.",
 [RT,RQ],[("PDCregion_transfer_start_all, PDCregion_transfer_wait_all",RT),("PDC_Client_pack_all_requests, transfer_request_all server handlers",RT)])
p("P14","Closing or flushing an object leaves no transfer behind",
 "When an object is closed, every transfer started on it has completed: its data is readable by other clients and its buffers hold the final values. Flush requests make all completed writes of the object durable without changing any readable value.",
 ["histories","schedules"],"All histories in which objects with zero or more outstanding transfers are closed or flushed, with any message delays.",
 NOCI+"They always wait explicitly before closing.",
 [OB,RT,RC],[("PDCobj_close waits for outstanding requests",OB),("PDCobj_flush_start / PDCobj_flush_all_start",OB),("PDC_region_cache_flush",RC)])
p("P15","Resized dimensions are what every client then sees",
 "After an object's dimensions have been changed, asking for them returns the new values in the client that changed them and in every client that opens the object afterwards, regions inside the new extent can be written and read, and no other attribute or stored value changes.",
 ["histories","inputs"],"All sequences of dimension changes interleaved with data access by several clients, 1 to 3 dimensions.",
 NOCI+"They change dimensions once, from the client that created the object.",
 [OB,CC,SM],[("PDCobj_set_dims / PDCobj_get_dims",OB),("PDC_obj_reset_dims",CC)])
p("P16","Whole-object put and get return the stored bytes",
 "An object stored with a single put call is returned by a get call with the same bytes and size, from any client, and coexists unchanged with other objects stored the same way.",
 ["inputs","histories"],"All sizes and binary contents, several objects per container, several clients.",
 NOCI+"They put two small strings and get them back in the same process.",
 [OB,CC],[("PDCobj_put_data / PDCobj_get_data",OB),("PDC_Client_obj_put_data / PDC_Client_obj_get_data",CC)])
p("P17","An orderly shutdown and restart is transparent",
 "After the servers have been closed in the orderly way and restarted, every container, object, attribute, tag, dimension change and data value present before is present again and nothing else is, and all operations continue to work on the restored state. This holds for any number of successive restarts.",
 ["histories","configurations"],"All histories of operations before, between and after restarts, any number of servers, all partition settings.",
 NOCI+"One script restarts a server once and lists what is there, without comparing contents.",
 [SV,MQ,SM,SD],[("PDC_Server_checkpoint",SV),("PDC_Server_restart",SV),("transfer_request_metadata_query_checkpoint / _init",MQ)])
p("P18","A crash loses nothing that a completed checkpoint covers",
 "If servers die at any moment after a checkpoint has completed, restarting them recovers at least the metadata that checkpoint covered and the object data that had been flushed to storage before it; a crash during a later checkpoint never destroys the earlier one.",
 ["crash_points","histories"],"All histories with one or more checkpoints and a crash at any later message or during the writing of the next checkpoint.",
 "No test kills a server. Crash points between and inside checkpoint writes are never reached.",
 [SV,MQ],[("PDC_Server_checkpoint writes the session file",SV),("PDC_Server_restart",SV)],[("metadata_checkpoint.<rank>","the session file of each server","$PDC_TMPDIR")])
p("P19","Object and container IDs are unique and keep meaning the same thing",
 "IDs handed out are never zero and never repeated, whichever clients and servers create concurrently, however many objects exist, and also after a restart; an ID continues to denote the object it was returned for until that object is deleted.",
 ["histories","schedules","configurations"],"All concurrent creations by any number of clients on any number of servers, and all restarts in between.",
 NOCI+"No test compares IDs across ranks, servers or restarts.",
 [SM,SV,CC],[("PDC_Server_gen_obj_id, pdc_id_seq_g",SM),("PDC_get_server_by_obj_id","src/server/pdc_client_server_common.c"),("PDC_Server_restart",SV)])
p("P20","Remote calls and memory transfers stay within protocol",
 "Every request sent is answered at most once by the server it was sent to, every memory transfer stays inside memory its owner registered with the needed permission and still holds, and every message is decoded with the layout it was encoded with.",
 ["schedules","histories","inputs"],"All workloads of the public API on any number of servers and clients, with delayed and reordered progress.",
 "A real network layer hides such errors unless memory happens to be unmapped; the tests check results only.",
 [CSC,CSH,CC,RT,RQ],[("HG handlers and HG_Respond/HG_Free_input/HG_Destroy pairing",CSC),("HG_Bulk_create/HG_Bulk_transfer/HG_Bulk_free ownership",RQ),("hg_proc_* functions",CSH)])
p("P21","Servers and clients never access invalid memory or execute undefined behaviour",
 "Whatever sequence of valid API calls clients make, no server or client process reads or writes memory outside live allocations, frees memory twice or relies on undefined arithmetic; no server process dies.",
 ["inputs","histories","configurations"],"All sequences of public API calls with valid arguments, all names, sizes, dimensionalities and settings.",
 "Tests run uninstrumented; an out-of-bounds access that happens not to crash passes.",
 [CSC,SM,SV,SD,RC,RQ,MQ,CC,RT],[("all buffer size computations in packing, checkpointing, listing and tag code",CC)])
p("P22","Background activity in a server is properly synchronised with requests",
 "The periodic cache flusher and request processing never access shared server state without mutual exclusion, under every interleaving of requests, flushes, cache eviction and shutdown.",
 ["schedules","configurations"],"All interleavings of the flusher thread with region writes, reads, flush requests, checkpoints and shutdown.",
 "The flusher wakes every 30 s by default, after the tests are over.",
 [RC,SD,RQ],[("pdc_obj_cache_list_mutex, pdc_cache_mutex, pdc_region_cache_... locks",RC)],[("obj_cache_list, total_cache_size","shared between flusher and handlers",RC)])
p("P23","Every message decodes to what was encoded",
 "Encoding any request or response structure and decoding it at the other side yields equal field values, including strings and nested structures, and consumes exactly the bytes produced.",
 ["inputs"],"All message types registered by the system and all field values.",
 "Tests only send the values their scenario happens to contain, so a swapped or dropped field with a default value passes.",
 [CSH,CSC],[("hg_proc_<type> for every <type>_in_t/_out_t",CSH)])
p("P24","Every call returns and every server shuts down cleanly",
 "Every client call returns within bounded work whatever other clients do, and after all clients have left, an orderly close makes every server write its state and exit with success.",
 ["schedules","histories"],"All workloads followed by orderly shutdown, with any number of clients and servers, including shutdown right after other requests.",
 NOCI+"They stop the server with a script that does not look at its exit.",
 [SV,CC,CSC],[("PDC_Server_finalize, close_server handler",SV),("PDC_Client_check_response waiting loops",CC)])
p("P42","Region locks exclude each other and mapped buffers carry the data",
"At any moment at most one client holds the lock of a region: a request that does not wait is refused while another holds it, and requests that wait are granted one at a time as it is released, none forgotten; a lock on a different region is not affected, and releasing a lock nobody holds is refused. Releasing a write lock on a mapped region stores what the mapped buffer holds at that moment, releasing a read lock fills the buffer with what is stored, and transfer requests on an object kept on one server read the same bytes; nothing else changes.",
["schedules","histories","inputs"],"All interleavings of map, lock, release, unmap and transfer calls of several clients on objects of one to three dimensions. Two regions are the same lock when their offsets and sizes are equal; one buffer is mapped to a region at a time.",
NOCI+"They run one client that locks, releases and prints.",
["src/server/pdc_server_region/pdc_server_data.c",CSC,"src/api/pdc_region/pdc_region.c",CC],[("PDC_Data_Server_region_lock, PDC_Data_Server_region_release, PDC_Server_get_region_buf_ptr","src/server/pdc_server_region/pdc_server_data.c"),("region_release handler, buf_map_region_release_bulk_transfer_cb",CSC),("PDCbuf_obj_map, PDCreg_obtain_lock, PDCreg_release_lock","src/api/pdc_region/pdc_region.c")])
p("P25","Histograms account for every element and merging preserves counts",
 "A histogram built from any non-empty data set counts every element that is a number in exactly one bin whose range contains it, and merging histograms yields one in which every bin counts what the bins of the parts that lie in it count. Building a histogram terminates for every input.",
 ["inputs"],"All element types, data distributions (constant, tiny, huge, negative ranges) and merge trees.",
 "No test looks at histogram contents.",
 ["src/api/pdc_analysis/pdc_hist_pkg.c"],[("PDC_create_hist, PDC_gen_hist, PDC_hist_incr_all, PDC_merge_hist","src/api/pdc_analysis/pdc_hist_pkg.c")])
p("P26","Property lists keep what was set and duplicates are independent",
 "Every property set on an object property list is reported by the getter and given to objects created with it, and a duplicated list holds the same values; changing or closing either list afterwards affects neither the other nor existing objects.",
 ["histories","inputs"],"All sequences of set/duplicate/close/create over several lists, with every property kind.",
 NOCI+"They duplicate one list and close it.",
 ["src/api/pdc_obj/pdc_prop.c",OB],[("PDCprop_create, PDCprop_set_obj_*, PDCprop_obj_dup, PDCprop_obj_dup_property","src/api/pdc_obj")])
p("P27","Value queries select exactly the elements that satisfy the condition",
 "A value query (comparisons combined with and/or, optionally restricted to a region) selects exactly the elements of the stored data that satisfy it; the reported number of hits, the selection's coordinates and the data fetched for it agree with each other.",
 ["inputs","configurations"],"All condition trees over all element types and data, with region constraints, any number of servers.",
 "The only test of it is disabled.",
 ["src/api/pdc_query/pdc_query.c",SD,CC],[("PDCquery_create/and/or/get_selection/get_data","src/api/pdc_query/pdc_query.c"),("PDC_Server_data_query",SD)])
p("P28","Client handles are counted, resolvable and reusable",
 "A handle returned by a create or open call resolves to its own entity and only to it until it is closed, handles to different entities are never equal while both are open, and iterating over open containers or objects visits each exactly once, however many are open.",
 ["histories"],"All sequences of create/open/close/iterate over containers, objects, regions, transfer requests and property lists in one client.",
 NOCI+"They keep two or three handles open at a time.",
 ["src/utils/pdc_interface.c",OB,CO],[("PDC_id_register, PDC_find_id, PDC_dec_ref","src/utils/pdc_interface.c"),("PDCobj_iter_start/next, PDCcont_iter_start/next",OB)])
p("P30","Hash tables and hash sets behave as finite maps and sets",
 "For any sequence of insertions, replacements, removals, lookups and iterations, the hash tables and hash sets hold exactly the entries a mathematical map or set would, iteration visits every entry exactly once, set union and intersection are exact, and owned keys and values are released exactly once. An insertion or set operation for which no memory is left reports so and leaves the table or set as it was. Freeing a table or set releases all memory it holds.",
 ["histories","inputs"],"All operation sequences over all key populations, including many collisions and growth through several resizes.",
 "No test asserts anything about them.",
 ["src/commons/collections/pdc_hash_table.c","src/server/pdc_hash-table.c","src/commons/collections/pdc_set.c","src/commons/profiling/pdc_hashtab.c","src/commons/collections/pdc_hash.c","src/commons/collections/pdc_compare.c"],[("hash_table_insert/lookup/remove/iterate and enlarge","src/commons/collections/pdc_hash_table.c"),("set_insert/remove/union/intersection","src/commons/collections/pdc_set.c"),("htab_find_slot/expand","src/commons/profiling/pdc_hashtab.c")])
p("P31","Vectors, deques, stacks and linked lists behave as sequences",
 "For any sequence of operations at either end, vectors, deques, stacks and linked lists return exactly the elements a mathematical sequence would, in order, through every growth and shrinkage of their storage. Taking from an empty deque yields nothing, from an empty stack ends the program with a failure. A vector that cannot grow for want of memory keeps the items it holds. Destroying one releases all memory it holds.",
 ["histories","inputs"],"All operation sequences, initial capacities and growth factors.",
 "No test uses them.",
 ["src/commons/collections/pdc_vector.c","src/commons/collections/pdc_deque.c","src/commons/collections/pdc_stack.c","src/commons/utils/include/pdc_linkedlist.h"],[("pdc_vector_add growth","src/commons/collections/pdc_vector.c"),("resize_deque","src/commons/collections/pdc_deque.c")])
p("P32","The radix tree is an ordered map with exact prefix iteration",
 "For any sequence of insertions, replacements and deletions of binary keys, the adaptive radix tree finds exactly the keys present with their latest values, reports size, minimum and maximum correctly, iterates all entries in key order, and prefix iteration visits exactly the keys that start with the prefix, in order. Destroying a tree releases all memory it holds.",
 ["histories","inputs"],"All key sets including long shared prefixes, dense fan-out through every node size, and keys that differ only in the last byte.",
 "No test touches it; node growth and shrink boundaries need specific populations.",
 ["src/commons/collections/art.c"],[("art_insert/art_delete node promotion and demotion","src/commons/collections/art.c"),("art_iter, art_iter_prefix","src/commons/collections/art.c")])
p("P33","Index placement always sends a query where the entry was placed",
 "For every key, an exact, prefix, suffix or infix query that the key matches is sent to at least one server on which the key's insertion stored an entry (the key or one of its suffixes) that the query matches, and a deletion is sent to all servers the insertion went to, for every load distribution at insertion time. All servers chosen are valid and placement depends only on key and configuration, not on the process or moment. An entry is stored as often as the replication factor says, on the less loaded of its two candidate servers; an exact query asks at most two servers, no server twice, repeated queries take turns among replicas, and varied keys are spread over the servers.",
 ["inputs","configurations","schedules"],"All keys and query tokens, any number of servers, replication factor and tree height, and any reported server load at insertion.",
 "The existing simulations print placements and assert nothing.",
 ["src/commons/index/dart/dart_core.c"],[("DART_hash, get_server_ids_for_insert, get_server_ids_for_query, get_replica_node_ids","src/commons/index/dart/dart_core.c"),("DHT_hash","src/commons/index/dart/dart_core.c")])
p("P34","Bloom filters never deny an element they contain",
 "An element added to a counting or scaling filter within its capacity and not removed is always reported present, through growth of a scaling filter, counter sharing with other elements, and removals of other elements; the element counts the filters report are exact, a fresh filter contains nothing, absent elements are reported about as rarely as the error rate asks for, and no filter of a growing set exceeds its capacity. A full counter refuses to count on and an empty one to count down, leaving all counters as they are; a full counter stays full whatever is removed, because it may stand for more elements than it can count. Freeing a filter releases all memory it holds.",
 ["histories","inputs"],"All sequences of additions, removals and checks over any element population, capacity and error rate.",
 "The bundled test program is not part of the suite.",
 ["src/server/dablooms/pdc_dablooms.c","src/server/dablooms/pdc_murmur.c"],[("scaling_bloom_add/remove/check, new_counting_bloom_from_scale","src/server/dablooms/pdc_dablooms.c"),("bitmap_increment/decrement, bitmap_resize","src/server/dablooms/pdc_dablooms.c")])
p("P35","Region overlap, containment and copy arithmetic is exact",
 "For any two regions of up to three dimensions, overlap detection, the computed overlap and containment agree with element-by-element set reasoning, and copying the overlap moves exactly the overlapping elements to their right places and changes nothing else.",
 ["inputs"],"All pairs of offset/size vectors and element sizes, including touching, nested, disjoint and identical regions.",
 "No test calls them directly and integration tests use a few fixed regions.",
 ["src/utils/pdc_region_utils.c","src/server/pdc_server_region"],[("PDC_region_overlap_detect, check_overlap, detect_region_contained, memcpy_overlap_subregion, memcpy_subregion","src/utils/pdc_region_utils.c")])
p("P36","Name and value pattern matching follows the documented query syntax",
 "Matching of plain, prefix (abc*), suffix (*abc) and infix (*abc*) patterns, splitting of key=value conditions, numeric value ranges and string slicing give the results their definition gives for every input string, and never read beyond the strings they are given.",
 ["inputs"],"All strings and patterns, including empty, one-character, repeated-wildcard and overlapping ones.",
 "The bundled test program prints results for a few strings and asserts nothing.",
 ["src/commons/utils/query_utils.c","src/commons/utils/string_utils.c"],[("gen_query_key_value, is_value_in_range, get_key/get_value, k_v_matches_p","src/commons/utils/query_utils.c"),("simple_matches, startsWith, endsWith, contains, substring, split_string","src/commons/utils/string_utils.c")])
p("P37","The thread pool runs every job exactly once and wait means done",
 "Every job submitted to a thread pool runs exactly once (at most once if the pool is destroyed first), in submission order when the pool has one thread; waiting on the pool returns only after every job submitted before it has finished, destroying the pool terminates with no job running, and pools do not affect each other. A pool of n threads runs n jobs at once and never more; while it is held no job starts, advances or ends though jobs can be submitted, and released it goes on. Threads update the counts and the queue they share one at a time.",
 ["schedules","histories"],"All interleavings of submission, waiting, pausing and destruction, any pool size and job durations.",
 "No test uses the pool with more than trivial work, and no schedule is explored.",
 ["src/commons/utils/thpool.c"],[("thpool_add_work, thpool_wait, thpool_destroy, jobqueue, bsem","src/commons/utils/thpool.c")])
p("P38","JSON documents survive a round trip and malformed text does no harm",
 "Parsing what was printed (formatted, unformatted, buffered or minified) yields an equal document for every document the format can carry, malformed or truncated input is rejected without touching memory outside the input, and edits, duplicates and comparisons of documents concern exactly the addressed elements, references show what they refer to and never release it, and parsing says where it stopped. Deleting a document releases all memory it holds, and a rejected one leaves none behind; memory comes from the allocator the caller set, and running out of it at any point makes the call fail without harm or loss.",
 ["inputs","histories"],"All documents (nesting, unicode escapes, numbers, duplicate and empty keys), all edit sequences, and all byte strings as input to the parsers.",
 "No test covers it.",
 ["src/tools/cjson/cJSON.c"],[("cJSON_Parse / cJSON_Print / cJSON_Minify / item editing","src/tools/cjson/cJSON.c")])
p("P39","Memory accounting matches what is allocated",
 "Allocating through the accounting allocator raises its reported total by exactly the number of bytes asked for, and reallocating or releasing a block whose size the caller states changes it by exactly the difference, after any sequence of such calls; the per-structure counter moves alike, contents are preserved by reallocation and memory is zero-initialised where promised. An allocation that fails yields nothing and changes no total.",
 ["histories"],"All sequences of allocate/zero-allocate/reallocate/free with any sizes.",
 "No test reads the counter.",
 ["src/commons/utils/pdc_malloc.c"],[("PDC_malloc, PDC_calloc, PDC_realloc, PDC_free","src/commons/utils/pdc_malloc.c")])
p("P40","Files written with the file helpers read back as written",
 "Text lines, binary contents and buffers written to a file with the file helpers are exactly the bytes of that file and are read back unchanged by the corresponding reading call, whatever they contain; replacing part of a binary file changes those bytes and no others; reading line by line yields every line in order within the size of the caller's block. A request for more than the file holds, and a write that the storage does not take in full, are reported as failures, and no call leaves a file open. Text printed to and lines read from the console pass unchanged as well.",
 ["inputs","histories"],"All contents (empty, binary, long lines, no final line end) and all sequences of writing, appending, partial replacement and reading. Replacement is specified for a length equal to the size of the data given; files that cannot be opened are outside this property.",
 "No test calls these helpers.",
 ["src/commons/file/common_io.c","src/commons/file/include/common_io.h"],[("write_text_file / read_text_file, write_binary_file / read_binary_file / update_binary_file, write_file / read_file, read_line","src/commons/file/common_io.c")])
p("P41","Stop watches and the call profile account for all the time spent",
 "A stop watch reports exactly the time that passed while it was running since it was last started, pauses excluded, in every unit, and pausing a paused or resuming a running watch changes nothing. The call profile holds, for every function entered, the number of calls completed and the sum of the time they took with and without the calls made inside them; the times without inner calls of all functions add up to the time spent inside profiled calls. The printed report lists every function once with its calls and the mean time of a call, and profiling is on exactly when it was last switched on.",
 ["histories","inputs"],"All sequences of start/pause/resume/read, and all nestings, recursions and repetitions of profiled calls of any duration, on a clock that does not go backwards.",
 "No test measures an interval whose length it knows.",
 ["src/commons/utils/timer_utils.c","src/commons/profiling/pdc_stack_ops.c","src/commons/profiling/include/pdc_stack_ops.h"],[("timer_start / timer_pause / timer_unpause / timer_delta_us","src/commons/utils/timer_utils.c"),("push, pop","src/commons/profiling/pdc_stack_ops.c"),("TIMER_ADD, TIMER_DIFF","src/commons/profiling/include/pdc_stack_ops.h")])
p("P45","Every data type has one number, size and name throughout the system",
 "Each data type of elements and tag values has the size of the C type it stands for, both where tag values are stored and where elements are transferred and queried; its type and enumeration names and its print format are its own, looking an enumeration name up gives the type it names and no other text gives a type, numbers outside the known types have neither size nor name, and the size of a value is its number of items times the size of its type, or for strings their lengths with their terminators.",
 ["inputs"],"All type numbers inside and outside the range, all texts as names, all item counts. The element size of strings in transfers, which has no fixed value, is not specified.",
 "No test compares the type tables with each other or with the element sizes used in transfers.",
 ["src/commons/generic/include/pdc_generic.h","src/server/pdc_client_server_common.c"],[("DataTypeSizes, DataTypeNames, DataTypeEnumNames, DataTypeFormat and their accessors","src/commons/generic/include/pdc_generic.h"),("PDC_get_var_type_size","src/server/pdc_client_server_common.c")])
p("P46","Random numbers follow the distribution asked for and repeat for a seed",
 "A generator started with a given positive seed yields the same numbers again; a negative seed leaves the sequence going on. Uniform numbers lie in [0,1), numbers of a range within it, and the values drawn are distributed uniformly, normally with the mean and deviation given, or exponentially with the mean given. The time stamps in seconds, milliseconds, microseconds and nanoseconds all denote the current time.",
 ["inputs","histories"],"All seeds, finite parameters with a positive width, deviation or mean; times since 1970. Distribution is judged on thousands of numbers per seed.",
 "No test draws a random number or compares time stamps.",
 ["src/commons/index/dart/dart_utils.c","src/commons/index/dart/include/dart_utils.h"],[("random_seed, random_uniform, random_range, random_normal, random_exponential, get_timestamp_*","src/commons/index/dart/dart_utils.c")])
p("P43","Hash and comparison functions compute what they are defined to compute",
 "The MD5, Murmur and djb2 digests that place and identify objects, index entries and filter elements equal those of their published definitions for every byte string, length and seed, on every platform and in every process; keys that a hash table calls equal have equal hashes, under case folding and for floating-point keys, too, integer powers wrap as unsigned numbers do, and the typed comparison functions are total orders consistent with the numeric, bytewise or case-insensitive order of their operands.",
 ["inputs"],"All byte strings of any length and alignment, including bytes above 127 and embedded zeros where a length is given, all seeds, and all pairs and triples of operands (NaN excluded).",
 "No test compares a digest with its definition; a changed digest only moves data to places nobody looks for it.",
 ["src/commons/index/dart/dart_algo.c","src/commons/collections/pdc_hash.c","src/commons/collections/pdc_compare.c","src/server/dablooms/pdc_murmur.c"],[("md5, md5_hash, djb2_hash, murmur3_32","src/commons/index/dart/dart_algo.c"),("MurmurHash3_x64_128","src/server/dablooms/pdc_murmur.c"),("pdc_default_*_hash_func, pdc_default_*_equal_func","src/commons/collections/pdc_hash_table.c"),("uint32_pow, uint64_pow, log_with_base","src/commons/index/dart/dart_math.c"),("string_hash, string_nocase_hash, int_hash, ui64_hash, pointer_hash","src/commons/collections/pdc_hash.c"),("int_compare, ui64_compare, string_compare, string_nocase_compare, pointer_compare and the _equal functions","src/commons/collections/pdc_compare.c")])
p("P44","Handles lead to the objects they were given for, until they are closed",
 "Every handle a client is given (for containers, objects, properties, regions, transfer requests) is new, tells its type, and leads to the object it was given for and to no other for as long as it is held, however many other handles are opened and closed; holding it more often delays its end, the last release ends it and releases its object exactly once through the function of its type, a refused release keeps both, and clearing a type ends the handles of that type and no others. A handle that was closed or never given is found nowhere: looking it up, holding it or closing it reports failure, and a library call that is given it (creating or describing objects, tags, properties, containers, transfers, mapped buffers, region locks) fails without crashing the client or touching what open handles lead to.",
 ["histories"],"All interleaved histories of registering types, opening, holding, closing, refusing, clearing and looking up handles (by number and by name), of one client, with any number of handles per type.",
 "Every call of the library goes through this table; tests close each handle once, in order, and never look one up afterwards.",
 ["src/utils/pdc_interface.c","src/utils/include/pdc_interface.h","src/commons/utils/include/pdc_linkedlist.h"],[("PDC_register_type, PDC_id_register, PDC_dec_ref, PDC_inc_ref, PDC_find_id, PDC_find_byname, PDC_id_list_clear, PDC_id_list_null","src/utils/pdc_interface.c"),("PDC_LIST_SEARCH","src/commons/utils/include/pdc_linkedlist.h")])
p("P47","pdc_ls shows what the checkpoints hold, no more and no less",
 "pdc_ls lists every object of the complete checkpoints in a directory (or of the one checkpoint file it is given) exactly once, under its container, with its name, id, application, user, tags, element type, dimensions and time step as the servers held them; the regions it lists lie within the object and, together, tell for every element ever written the file and offset where its value is stored. -n and -i select exactly the objects whose name and id match the regular expressions; -ln and -li add the names and ids of the objects listed, -s their number and those of containers and regions. Whatever names, tags and numbers hold, the listing is well-formed JSON, to the terminal or to the file named by -json; checkpoints still being written, checkpoints that cannot be opened and other files are passed over.",
 ["histories","inputs"],"All metadata and data histories that lead to a checkpoint, for every number of servers, and all combinations of the tool's options.",
 "The tool has its own reader of the checkpoint format, which the servers change without it; tests never run it against a server's checkpoint.",
 ["src/tools/pdc_ls.c","docs/source/tools.rst"],[("main, pdc_ls","src/tools/pdc_ls.c"),("PDC_Server_checkpoint","src/server/pdc_server.c"),("cJSON_Print, cJSON_AddItemToArray","src/tools/cjson/cJSON.c")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
