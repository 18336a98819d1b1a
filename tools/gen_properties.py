#!/usr/bin/env python3
"""Single source of the property texts: writes /verif/properties.jsonl (run by hand after an edit)."""
import json, os
P = []
INC = "include/xitren/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[INC + f for f in files],
            state=[dict(name=n, meaning=m, where=INC + w) for n, m, w in state],
            mechanism=[dict(name=n, where=INC + w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

HEAP = "allocators/static_heap.hpp"
HALLOC = "allocators/static_heap_allocator.hpp"
hist = ["inputs", "histories"]
prop("A01", "Live heap blocks are aligned, in bounds, disjoint and undisturbed",
     "For every sequence of allocate, callocate and deallocate calls on a static heap, each non-null pointer returned is 8-byte aligned and its requested bytes lie inside the heap object. The bytes of a live block never overlap those of another live block. The contents the user stored in a live block are not changed by any other heap operation.",
     hist, "every heap size instantiated, every sequence of allocation sizes and every pattern and order of frees",
     "the unit tests use a few fixed sequences with tiny sizes; overlap or corruption needs a particular combination of sizes, gaps and free order",
     [HEAP], [("first-fit search, split and header write", HEAP + " allocate"), ("address-ordered insert and merge", HEAP + " prv_insert_block_into_free_list")],
     [("free list", "address-ordered list of free blocks with sizes", HEAP)], ["pointers returned", "bytes of live blocks"])
prop("A02", "Heap free-byte accounting is exact and freed memory coalesces",
     "At every moment free_heap_size equals the heap's initial free size minus the bytes taken by the live blocks, and each deallocation returns exactly what its allocation took. Once all blocks are freed, in whatever order, free_heap_size is back at its initial value and the largest request the fresh heap could serve succeeds again.",
     hist, "every history of allocations and frees and every order of frees",
     "tests look at one or two orders of frees and never at the totals afterwards",
     [HEAP], [("x_free_bytes_remaining_ updates", HEAP + " allocate/deallocate"), ("merge with both neighbours", HEAP + " prv_insert_block_into_free_list")],
     (), ["free_heap_size", "allocate after freeing all"])
prop("A03", "An allocation fails only when no free area fits, and failing is harmless",
     "allocate(n) with n > 0 returns a block whenever some contiguous free area of the heap can hold n bytes rounded up to the alignment plus the per-block overhead, and returns null for n = 0, for sizes that do not fit and for sizes whose rounding overflows. A failing call changes nothing in the heap and invokes the registered failure callback exactly once; a successful call never invokes it.",
     hist, "every request size over the full size range, in every reachable layout of free and live areas",
     "a handful of sizes is tried on nearly empty heaps, never the overflow range nor fragmented layouts, and no test registers the callback",
     [HEAP], [("overflow guards and top-bit check", HEAP + " allocate"), ("on_fail callback", HEAP + " allocate")],
     (), ["allocate result", "callback invocations", "free_heap_size"])
prop("A04", "Deallocating null or an already freed block is a no-op",
     "deallocate(nullptr) and a second deallocate of a block that has been freed and not handed out again leave the heap unchanged: no free byte is counted twice, no live block is lost, and later allocations stay disjoint.",
     hist, "every layout and every point at which the repeated deallocation happens",
     "no test deallocates null or twice",
     [HEAP], [("allocated bit in the block header", HEAP + " deallocate")], (), ["free_heap_size", "later allocations"])
prop("A05", "Low-water mark and heap statistics describe the real heap",
     "minimum_ever_free_heap_size is the minimum of free_heap_size over the history since construction or the last reset_minimum_ever_free_heap_size call. The statistics query reports the number of free areas, the largest and smallest free area, the free bytes, the low-water mark and the counts of successful allocations and frees as they really are.",
     hist, "every history of allocations, frees and resets",
     "no test reads the low-water mark or the statistics (the statistics function is never instantiated)",
     [HEAP], [("x_minimum_ever_free_bytes_remaining_", HEAP + " allocate"), ("v_port_get_heap_stats", HEAP)], (), ["minimum_ever_free_heap_size", "v_port_get_heap_stats"])
prop("A06", "callocate returns zeroed memory of the full product or null",
     "callocate(num, size) returns null whenever the product num*size is zero, overflows or does not fit; otherwise it returns a live block of num*size bytes that are all zero, whatever the memory held before, and touches no other live block.",
     ["inputs", "histories"], "every pair num, size over the full range and every previous content of the memory",
     "callocate is not called by any test",
     [HEAP], [("heap_multiply_will_overflow", HEAP), ("memset of the product", HEAP + " callocate")], (), ["returned block contents"])
prop("A07", "The heap allocator yields storage for n objects or throws bad_alloc",
     "static_heap_allocator::allocate(n) returns storage for n objects of its type inside its heap or throws std::bad_alloc, for every n including those where n*sizeof overflows, and deallocate returns that storage to the same heap. Two allocators, of the same or of rebound types, compare equal exactly when they use the same heap.",
     ["inputs", "configurations"], "every count n over the full range, every element type of alignment up to 8 and every pair of allocators",
     "tests use small counts only and never compare allocators",
     [HALLOC, HEAP], [("size computation", HALLOC + " allocate"), ("operator==", HALLOC)], (), ["pointer or exception", "free_heap_size"])
prop("A08", "Standard containers work unchanged on a static heap",
     "A standard container using static_heap_allocator has the same contents and results as one using the default allocator for every sequence of operations that fits in the heap. Running out of heap surfaces as std::bad_alloc and leaves the container valid, and destroying or clearing containers gives every byte back to the heap.",
     hist, "every sequence of container operations and values within the bounds, including the one that exhausts the heap",
     "the container tests replay one fixed sequence each and none runs out of memory",
     [HALLOC, HEAP], [("allocator requirements: rebind, allocate, deallocate", HALLOC)], (), ["container contents", "free_heap_size"])

LRU = "cache/lru.hpp"
prop("C01", "A cache lookup returns the value last stored under the key",
     "For every history of put and get, get(key) returns the value most recently put under that key if the key is resident and not expired, and an empty result if the key was never put or has been evicted. A put of an existing key replaces its value, and no key is ever resident twice.",
     hist, "every history of put/get operations with arbitrary keys and values, for every capacity instantiated",
     "the only cache test is empty",
     [LRU], [("put: update or insert", LRU + " put"), ("get: lookup", LRU + " get")], [("list_/map_", "recency list and key index", LRU)], ["get result"])
prop("C02", "The cache holds at most its capacity and evicts the least recently used",
     "The cache never holds more than its capacity of keys. When a new key is put into a full cache exactly one key is evicted, the one whose last successful get or put is the oldest; a key that is not the least recently used is never evicted.",
     hist, "every history of put/get operations with arbitrary keys, for every capacity instantiated",
     "the only cache test is empty",
     [LRU], [("recency list order", LRU + " put/get")], (), ["which keys get still finds"])
prop("C03", "Cache entries expire after their lifetime and not before",
     "A get made strictly earlier than the configured lifetime after the key's last put returns the value; a get made at or after it does not, and reports the timeout by throwing cache_timeout when exceptions are enabled and by an empty result otherwise. A new put makes the key live again for a full lifetime.",
     hist, "every non-decreasing sequence of clock readings and every lifetime",
     "the only cache test is empty; time is not under the test's control",
     [LRU, "cache/exceptions.hpp"], [("timestamp comparison", LRU + " get")], (), ["get result or cache_timeout"])

prop("C04", "With its locks compiled in, a cache can be used by several threads",
     "Where the platform's mutexes are compiled in (PTHREAD_MUTEX_DEFAULT is a macro), put and get calls made by several threads at the same time never race and always finish, their results and the final content are those of the same calls made one after the other in some order that keeps a call after those that had ended when it began, and a call that ends by throwing leaves the cache usable.",
     ["schedules", "inputs", "histories"], "every schedule of two or three threads within the preemption bound and every choice of calls",
     "no test uses the cache from two threads, and the interleavings that matter are rare",
     [LRU], [("access_ locked in put and get", LRU)], (), ["get results", "final content"])

OBS = "comm/observer.hpp"
prop("O01", "A fixed-capacity observable keeps an exact bounded subscription set",
     "For every sequence of add and remove calls, the fixed-capacity observable holds each observer at most once, never more than its capacity, in subscription order. add answers ok, already_contains or list_is_full, and remove answers ok or not_found, exactly as the subscription set at that moment demands, and a call that does not answer ok changes nothing.",
     hist, "every sequence of add/remove/clear over every choice of observers, for every capacity instantiated",
     "tests add a few distinct observers once and never fill the list, re-add or remove unknown ones",
     [OBS, "comm/observer_errors.hpp"], [("count_ and contains", OBS + " add_observer"), ("std::remove", OBS + " remove_observer")], (), ["return codes", "who is notified"])
prop("O02", "Each notification reaches every subscriber exactly once, unaltered",
     "notify_observers on any observable (fixed-capacity or dynamic) calls every observer subscribed at that moment exactly once, in subscription order, with the observable as source and the caller's data unchanged, and calls nobody else.",
     hist, "every subscription history, every data value and both observable kinds",
     "tests only check that a flag became 1 after one notification",
     [OBS], [("loop over observers", OBS + " notify_observers")], (), ["observer data callbacks"])
prop("O03", "Recursive notification of a fixed-capacity observable is refused",
     "If an observer notifies the fixed-capacity observable again from within its callback, that inner call delivers nothing and answers notify_recursion_detected, the outer notification still reaches every remaining observer exactly once, and later notifications work normally.",
     hist, "every number of observers, every position and number of recursive attempts",
     "no test notifies from inside a callback",
     [OBS], [("inside flag", OBS + " notify_observers")], (), ["return codes", "deliveries"])
prop("O04", "The dynamic observable keeps an exact subscription set",
     "For every sequence of add and remove calls, the dynamic observable holds each observer at most once in subscription order; adding a subscribed observer throws already_contains and removing an unsubscribed one throws not_found, and a throwing call changes nothing.",
     hist, "every sequence of add/remove/clear over every choice of observers",
     "tests add distinct observers once and never provoke an error",
     [OBS], [("contains/push_back", OBS + " add_observer"), ("std::erase", OBS + " remove_observer")], (), ["exceptions", "who is notified"])
prop("O05", "Clearing or destroying an observable disconnects each subscriber once",
     "clear_observers and the destructor of an observable call disconnect exactly once on every observer subscribed at that moment, with the observable as source, and on nobody else. After clearing nobody is notified until subscribed again.",
     hist, "every subscription history before the clear, all observable kinds",
     "disconnect is not exercised by any test",
     [OBS, "comm/values/observable.hpp"], [("clear_observers", OBS), ("clear_observers", "comm/values/observable.hpp")], (), ["disconnect callbacks"])
prop("O06", "A compile-time observer chain notifies each observer exactly once in order",
     "notify on a statically wired observable calls each observer it was constructed with exactly once, in construction order, with the caller's data unchanged, and passes every one of them the same source, the identity of that observable.",
     ["inputs", "configurations"], "every data value and chain lengths 1 to 4",
     "tests count calls for two chains but check neither order, data nor source",
     ["comm/observer_static.hpp"], [("recursive next_.notify", "comm/observer_static.hpp"), ("root reference", "comm/observer_static.hpp")], (), ["notification_impl arguments"])

prop("O07", "With its locks compiled in, a dynamic observable can be shared by threads",
     "Where the platform's mutexes are compiled in (PTHREAD_MUTEX_DEFAULT is a macro), add, remove, notify and clear calls made on a dynamic observable by several threads at the same time never race and always finish, their answers and the callbacks they make are those of the same calls made one after the other in some order that keeps a call after those that had ended when it began, no observer is called once its removal has returned, and a call that throws leaves the observable usable.",
     ["schedules", "inputs", "histories"], "every schedule of two or three threads within the preemption bound and every choice of calls",
     "no test uses an observable from two threads, and the interleavings that matter are rare",
     [OBS], [("access_ locked in every member", OBS)], (), ["exceptions", "observer callbacks"])

VAL = "comm/values/observable.hpp"
VOB = "comm/values/observed.hpp"
prop("V01", "Observed values equal their observable after every change",
     "After every assignment, increment, decrement, += or -= of an observable value, every subscribed observed value equals the observable's value, and its update callback, if any, has run exactly once with that value, already readable from both. Observed values that are not subscribed are left untouched.",
     hist, "every sequence of operations and operands, fixed-capacity and dynamic observables",
     "tests only assign 154 once",
     [VAL, VOB], [("operators call notify_observers", VAL), ("store then callback", VOB + " data")], (), ["value() of observable and observed", "callback arguments"])
prop("V02", "Observable value operators compute like the plain value",
     "Each operator of an observable value leaves it at exactly the value the same operator gives on a plain variable and returns what that operator returns: the old value for postfix ++ and --, the new value for prefix ++ and --, += and -=, and the assigned value for =, also when a callback changes the value again meanwhile.",
     ["inputs", "histories"], "every initial value and operand for which the plain operation is defined",
     "no test uses any operator but =",
     [VAL], [("fetch_add/fetch_sub wrappers", VAL)], (), ["operator results", "value()"])
prop("V03", "Observable values keep an exact subscription set",
     "For every sequence of add and remove calls on an observable value, fixed-capacity or dynamic, each observed value is subscribed at most once, removed ones are no longer updated, the others keep being updated exactly once per change, and the answers (ok, already_contains, not_found, list_is_full) match the subscription set.",
     hist, "every sequence of add/remove over every choice of observed values",
     "tests never remove, re-add or overfill",
     [VAL], [("add_observer/remove_observer", VAL)], (), ["return codes", "updates delivered"])

prop("V04", "Concurrent changes of an observable value lose nothing",
     "When several threads use the operators of one observable value at the same time, while its subscriptions stay as they are, no access races, no change is lost, the results and the final value are those of the same operations made one after the other in some order that keeps an operation after those that had ended when it began, and every observer is told exactly once about each change, with the value that change made.",
     ["schedules", "inputs"], "every schedule of two or three threads within the preemption bound and every choice of operators and operands",
     "no test changes a value from two threads, and a lost update needs a particular interleaving",
     [VAL, VOB], [("fetch_add, fetch_sub and store of the atomic base", VAL)], (), ["operator results", "value()", "callback arguments"])

MED = "comm/mediator.hpp"
prop("M01", "The mediator routes each message exactly to its receivers",
     "A message sent by a module or through the manager is delivered exactly once to every registered module that declares its type as received and does not itself send that type, and to no other module, in registration order.",
     ["inputs", "histories", "configurations"], "every set and order of registered modules, every sender and every message type",
     "the only test prints and asserts nothing",
     [MED], [("id comparison", MED + " distribute/send"), ("receiver_converter_helper", MED)], (), ["module data callbacks"])
prop("M02", "Mediated messages arrive bit-for-bit unchanged",
     "The message object a receiving module's data callback gets has exactly the field values the sender sent, and the manager's own data hook sees the same bytes with their exact size; a raw message whose size does not match the declared type is not delivered as that type.",
     ["inputs"], "every message content and every raw size",
     "the only test prints and asserts nothing",
     [MED], [("data_converter copies", MED)], (), ["data callback arguments"])
prop("M03", "Modules can join and leave the mediator at any time within its capacity",
     "Constructing a module registers it and destroying it unregisters exactly that module, for every order and up to full capacity; the remaining modules keep receiving, in order. Registering beyond the capacity throws and corrupts nothing.",
     hist, "every order of construction and destruction, including at full capacity",
     "the test registers three modules in a manager of five and never removes one before the end",
     [MED], [("add_module/remove_module", MED)], (), ["deliveries after joins and leaves", "exception at capacity"])

PS = "comm/pipeline_stage.hpp"
PP = "comm/pipeline_stage_pool.hpp"
sched = ["schedules", "inputs", "histories"]
prop("P01", "A pipeline stage handles every pushed item exactly once, in order",
     "Every item pushed into a pipeline stage is handed to the handler exactly once, unaltered and in push order, before the stage's destructor returns, for every schedule of the threads and also when more items are pushed than the buffer holds (a handler pushing into its own full stage is excluded).",
     sched, "every interleaving of pushing thread and worker, item values, and push counts below, at and above the buffer size",
     "one test run samples one schedule, and the buffer of 1024 is never filled",
     [PS], [("ring buffer with head and tail counters", PS + " push / worker"), ("drain before join", PS + " destructor")], (), ["handler invocations"])
prop("P02", "A pipeline stage accepts concurrent producers without loss or races",
     "When several threads push into the same pipeline stage concurrently, every item is handled exactly once, the items of one producer keep their order, and no access to shared data races with another, for every schedule.",
     sched, "every interleaving of two producers and the worker within the preemption bound",
     "tests push from one thread only, and a data race cannot be seen by a passing test",
     [PS], [("atomic slot claim and hand-over", PS + " push / worker")], (), ["handler invocations", "data-race detection"])
prop("P03", "A pipeline pool handles every item exactly once for every pool size",
     "Every item pushed into a pipeline pool is handled exactly once by one of its workers before the destructor returns, for every pool size, every schedule and any number of items; the worker number reported to the handler is below the pool size.",
     ["schedules", "inputs", "configurations"], "pool sizes below, at and above the built-in default, every interleaving within the preemption bound",
     "tests use a pool of 8 with a buffer that is never filled",
     [PP], [("least-loaded selection", PP + " min_thread"), ("per-thread queues", PP)], (), ["handler invocations"])
prop("P04", "Pool dispatch picks a least-loaded worker",
     "A push into a pipeline pool queues the item at a worker whose number of waiting items (queued, or held by a push that waits for room there) is minimal at that moment, so pushes made while no worker makes progress are spread evenly: no worker gets a second item while another has none.",
     ["schedules", "inputs", "configurations"], "every pool size within the bound and every number of waiting items",
     "tests do not observe which worker handles an item",
     [PP], [("min_thread", PP)], (), ["worker id passed to the handler"])

prop("P05", "Handlers get the true statistics of the last ten items",
     "The time and load given to a handler (and returned by time_for_unit and buffer_utilization inside a stage's handler) are one tenth, rounded toward zero, of the sum over the worker's last ten handled items of the milliseconds each spent in its handler, and of the number of items queued at that worker right after it. In a pool every worker is given its own figures only, with its own number.",
     ["schedules", "inputs", "histories"], "every handling time, every queue length pattern and every schedule within the bound, before and after ten items",
     "real handling times and queue lengths vary from run to run, so no test asserts them",
     [PS, PP], [("stat_.push_front and pop_back", PS + " worker thread"), ("time_for_unit, buffer_utilization", PP)], [("stat", "the last ten measurements", PP)], ["measure_type / measure_data argument of the handler"])

IE = "func/interval_event.hpp"
prop("I01", "A periodic event keeps its cadence without drift or early firing",
     "The n-th callback (n counted from 0) never runs before n periods have passed since the event's thread started counting, and whenever at a check the next callback is due it is run, so the long-run rate is one callback per period whatever the delays between checks.",
     ["schedules", "inputs"], "every non-decreasing sequence of clock readings, every period and check interval, every callback duration",
     "tests count callbacks in one real-time run with a tolerance",
     [IE], [("last_time += period", IE + " worker loop")], (), ["callback times"])
prop("I02", "Stopping a periodic event is final and never hangs",
     "stop() called from outside the callback returns for every schedule, after it has returned no further callback starts and the event's thread no longer touches the object; calling stop again or destroying the object afterwards is harmless, and the destructor alone also stops the event.",
     ["schedules"], "every interleaving of stop/destruction with the event thread",
     "one test stops once and allows a stray callback",
     [IE], [("keep_running_ flag handshake", IE + " stop")], (), ["callbacks after stop", "memory accesses after destruction"])
prop("I03", "The event thread uses the configured function, period and check interval",
     "From its first check on the event's thread uses the function, period and check interval given to the constructor, or set later by the setters, however the threads are scheduled during construction.",
     ["schedules", "inputs"], "every interleaving of the constructor with the new thread",
     "a test run samples one schedule, in which the constructor wins",
     [IE], [("member initialisation order", IE + " constructor")], (), ["sleep intervals", "callback"])

ARG = "func/argv_parser.hpp"
prop("G01", "String and flag options receive exactly what the command line says",
     "A string option whose name appears on the command line with a following argument gets that argument verbatim, a flag option becomes true exactly when its name appears, and if a name appears several times the last occurrence that has a following argument wins.",
     ["inputs"], "every command line of bounded length over arbitrary strings of bounded length",
     "three fixed command lines are tried",
     [ARG], [("callback per option", ARG + " register_callback")], (), ["returned options"])
prop("G02", "Numeric options receive the number written on the command line",
     "An int option followed by a decimal integer within int range gets exactly that integer, with sign, and a double option followed by a decimal number gets that number.",
     ["inputs"], "every decimal text of bounded length",
     "one number is tried",
     [ARG], [("stream extraction", ARG + " register_callback")], (), ["returned options"])
prop("G03", "Absent, trailing or unknown arguments leave options at their defaults",
     "Options that do not appear, or whose name is the last argument with no value after it, keep the default of the options structure; arguments that name no option are ignored, and no argument beyond the given count is read.",
     ["inputs"], "every command line of bounded length over arbitrary strings of bounded length",
     "one absent flag is tried",
     [ARG], [("bounds check before the next argument", ARG + " register_callback")], (), ["returned options", "memory accesses"])

DAT = "func/data.hpp"
prop("D01", "LSB and MSB wrappers store their declared byte order on every CPU",
     "An lsb_t holds its value least significant byte first and an msb_t most significant byte first, on little-endian and big-endian targets alike, with exactly the size of the wrapped type, and get returns the value last stored by construction or assignment.",
     ["inputs", "configurations"], "every value of 16, 32 and 64 bits, little- and big-endian targets",
     "no test runs this header, and the host is little-endian",
     [DAT], [("is_lsb and swap", DAT)], (), ["object bytes", "get"])
prop("D02", "Wrapper comparisons order by numeric value",
     "The comparison operators of lsb_t and msb_t (==, !=, <, >, <=, >=) give for every pair of values what the same comparison gives on the plain unsigned values.",
     ["inputs"], "every pair of values of 16, 32 and 64 bits",
     "no test runs this header",
     [DAT], [("operators", DAT)], (), ["operator results"])
prop("D03", "swap reverses the bytes of a value",
     "swap returns its 16-, 32- or 64-bit argument with the byte order reversed, so applying it twice gives the argument back.",
     ["inputs"], "every value of 16, 32 and 64 bits",
     "no test runs this header",
     [DAT], [("swap overloads", DAT)], (), ["return value"])
prop("D04", "Serialising and deserialising an object is lossless",
     "serialize produces exactly the object representation of its argument, in the array form and through an iterator, and deserialize of those bytes gives back an equal object, writing or reading exactly sizeof bytes.",
     ["inputs"], "every field value and every byte content of the instantiated structures",
     "no test runs this header",
     [DAT], [("union of fields and bytes", DAT)], (), ["bytes", "fields"])

PK = "func/packet.hpp"
prop("K01", "A packet survives the trip through bytes and reports itself valid",
     "A packet built from a header and fields has header, fields and the checksum of exactly those bytes laid out back to back without padding; converting it to bytes and building a packet from those bytes, by any of the offered ways, gives the same header and fields and a valid packet.",
     ["inputs"], "every header and field content of the instantiated structures",
     "the packet test is not built here and compares only the header",
     [PK, DAT], [("constructors, to_array, serialize", PK)], (), ["packet bytes", "valid"])
prop("K02", "Packet validity means the checksum matches, for every byte content",
     "For every sequence of received bytes, a packet is reported valid exactly when its stored checksum equals the checksum computed over all bytes before it; any change of bytes that the checksum detects is reported as invalid.",
     ["inputs"], "every byte content of the packet, fixed and variable length",
     "no test corrupts a packet",
     [PK], [("valid", PK), ("packet_accessor::deserialize", PK)], (), ["valid flag"])
prop("K03", "Variable-length packets survive the trip through the accessor",
     "Whenever packet_accessor::serialize answers true, deserialize of the stored bytes gives back the header, the fields, the element count and the elements, marked valid, and the size is the sum of the parts.",
     ["inputs"], "every header, field, element content and every element count that fits",
     "packet_accessor is not used by any test",
     [PK], [("packet_accessor::serialize/deserialize", PK)], (), ["deserialized parts", "size"])
prop("K04", "The accessor never reads or writes outside its storage",
     "serialize answers false, changing nothing, for every element count that does not fit, including counts whose byte size overflows. deserialize of any storage content with any declared size never reads outside the storage and answers not valid for sizes too small, too large or not a whole number of elements.",
     ["inputs"], "every declared size and element count over the full range, every storage content",
     "packet_accessor is not used by any test",
     [PK], [("size checks", PK + " packet_accessor")], (), ["memory accesses", "results"])
prop("F01", "A fast pimpl behaves as the object it wraps",
     "Constructing, copying, moving, assigning and destroying a fast_pimpl performs exactly the corresponding operation once on the wrapped object, with the given arguments and values, so copies are independent, every constructed object is destroyed exactly once, and access through -> and * reaches that object, aligned and inside the wrapper.",
     hist, "every sequence of wrapper operations and values within the bound",
     "no test runs this header",
     ["func/fast_pimpl.hpp"], [("placement new, destructor, assignment", "func/fast_pimpl.hpp")], (), ["wrapped object's special members"])
prop("L01", "A log adapter type is accepted exactly when it offers the log levels",
     "A type satisfies the log adapter requirement exactly when it has the static functions trace, debug, warning and error; pipeline stages accept only such types.",
     ["programs"], "every type",
     "a compile-time constraint cannot be settled by sampling types",
     ["func/log_adapter.hpp"], [("log_adapter_concept", "func/log_adapter.hpp")], (), ["compile-time acceptance"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
