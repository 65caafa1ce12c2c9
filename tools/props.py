#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                     observe_at=observe or ["the public MPI C and Fortran entry points"],hook_needed=hook)))

p("C01","Messages match in posting order, per communicator and tag, exactly once",
 "Every posted send is matched with at most one posted receive on the same communicator and vice versa; a receive takes the earliest unmatched send whose tag it accepts (exact tag, or any tag for MPI_ANY_TAG), a send goes to the earliest unmatched receive that accepts its tag, and a pair that can match never stays pending together. This holds for every interleaving of posting, probing, completing and freeing operations by any number of components, with any number of operations pending, for every tag from 0 to INT_MAX, and through the nonblocking, blocking and combined send-receive calls alike. Operations on MPI_PROC_NULL complete at once and never match anything.",
 ["schedules","histories"],"All interleavings of sends, receives, probes, waits and frees issued by any number of simulated components over any set of communicators, tags and pending-queue depths.",
 "The tests post a handful of operations with at most five pending and a few fixed tags and orders; matching depends on the whole history of the two pending queues.",
 ["send.c","recv.c","req.c","list.c","comm.c"],
 [("search of the pending-receive queue by a send","send.c MPI_Isend"),("search of the pending-send queue by a receive","recv.c MPI_Irecv"),("FIFO append and removal","list.c AP_list_append/AP_list_delete_item")],
 [("sendlist/recvlist","per-communicator FIFO queues of unmatched operations","mpiP.h Comm")])

p("C02","A delivered message is exactly the sender's bytes, whichever side posts first",
 "When a send and a receive match, the receive buffer gets exactly the byte stream the send described (its count and datatype), laid out by the receive's own count and datatype, no matter which side was posted first, how long the operation was pending, or how the layouts of the two sides differ. A message shorter than the receive fills only the beginning of it, a longer one is cut at the receive's capacity, and nothing else in memory (gaps in either layout, bytes before, between and after the elements, the send buffer) is written, nor is anything outside the two layouts read. Buffers may lie anywhere in the address space, including absolute addresses relative to MPI_BOTTOM and layouts spanning more than 2 GiB.",
 ["schedules","inputs","histories"],"All posting orders, message and receive counts (including zero), pairs of derived layouts with the same element sequence, buffer positions and pending times.",
 "Tests use equal counts and mostly one posting order with small contiguous or near-contiguous layouts; which side's description is used depends on the schedule.",
 ["send.c","recv.c","copy.c","type.c"],
 [("copy at match time","send.c MPI_Isend / recv.c MPI_Irecv -> copy.c"),("typemap walk","copy.c")],
 [("Req","the pending operation: buffer, count, datatype, tag","mpiP.h")])

p("C03","Status, source, tag and element counts describe the message received",
 "Whenever a receive completes or a probe succeeds, through any blocking, nonblocking, array or combined call, the returned status carries the message's source (0) and its actual tag, and MPI_Get_count / MPI_Get_elements on it give the number of whole elements / basic elements of the queried datatype that the message delivered (MPI_UNDEFINED from MPI_Get_count if not a whole number). A receive from or probe of MPI_PROC_NULL reports source MPI_PROC_NULL, tag MPI_ANY_TAG and count 0; waiting on or testing a null request reports MPI_ANY_SOURCE, MPI_ANY_TAG and count 0. This does not depend on which side was posted first, on the receive's own count, or on what happened between matching and completion, and MPI_STATUS_IGNORE / MPI_STATUSES_IGNORE are accepted wherever a status is.",
 ["schedules","histories","inputs"],"All histories and posting orders leading to a completion, all message lengths against all receive capacities, all ways to observe the completion.",
 "The tests look at statuses of a few completions with matching counts; the count was never filled on most paths.",
 ["send.c","recv.c","req.c","probe.c","getcount.c"],
 [("status recorded at match, reported at completion","send.c, recv.c, req.c MPI_Test"),("count queries","getcount.c")])

p("C04","A request completes exactly when its operation does, exactly once",
 "A request becomes complete if and only if its operation has matched (or involves MPI_PROC_NULL), and stays complete until it is observed: testing it earlier reports incomplete and changes nothing, however often it is done. Observing completion sets that request variable to MPI_REQUEST_NULL, releases it once, and leaves every other request untouched; a null request tests and waits as complete at once, any number of times.",
 ["schedules","histories"],"All histories of posting, matching, testing, waiting and freeing of any number of simultaneously live requests, in any order of completion.",
 "The tests wait once per request in posting order; a leak of completion between requests, a double release or a lost completion needs a history with reuse and out-of-order completion.",
 ["req.c","send.c","recv.c","handles.c"],
 [("complete flag set on both sides of a match","send.c, recv.c"),("release and nulling on observation","req.c MPI_Test"),("handle recycling","handles.c")])

p("C05","Array completion calls obey their any / all / some contract",
 "MPI_Testall and MPI_Waitall act on all requests or on none: if any active request is incomplete Testall returns flag 0 and leaves every request usable, otherwise every request is released with its own status in its own slot. MPI_Testany and MPI_Waitany complete exactly one completed active request and report its index (zero-based in C, one-based in Fortran), report MPI_UNDEFINED as the index when there is no active request (with flag 1) or none is complete (flag 0), and are not fooled by null entries; MPI_Testsome and MPI_Waitsome complete exactly the completed active requests, with outcount, the indices and the statuses in corresponding positions and outcount MPI_UNDEFINED when no request is active. Every other request, and all memory beyond the given counts, is left alone, also with MPI_STATUS(ES)_IGNORE.",
 ["schedules","histories","inputs"],"All arrays of null, incomplete and complete send and receive requests of any length, reached through any history, in C and Fortran.",
 "No existing test calls the any/some/all test forms with a mix of complete, incomplete and null requests.",
 ["req.c","mpi.c"],
 [("array loops over single-request completion","req.c MPI_Testany/Waitany/Testall/Waitall/Testsome/Waitsome"),("Fortran status translation","mpi.c mpi_c_status(es)")])

p("C06","Impossible progress fails stop at once instead of hanging or faking success",
 "With one process nobody else can ever make progress, so a call that cannot complete (waiting on an unmatched request, Waitall with one incomplete, Waitany or Waitsome with active requests but none complete, probing for a message that is not there, a blocking or ready send with no receive posted, a blocking receive with nothing sent, a combined send-receive that cannot pair) terminates the program abnormally, immediately and with a diagnostic message. It never returns success, never loops, and never terminates with a success code; and a call that can complete is never terminated, at any point of any history.",
 ["schedules","histories","fault_sequences"],"Every reachable state of the pending queues and every completing call issued in it, including after components died leaving operations pending.",
 "Tests cannot exercise a path that aborts the test program, and one missed path means an application hang or silently wrong data.",
 ["req.c","send.c","recv.c","probe.c"],
 [("deadlock detection","req.c MPI_Wait/Waitany/Waitall/Waitsome, probe.c MPI_Probe, send.c MPI_Irsend")])

p("C07","Probing is truthful and does not disturb messages",
 "MPI_Iprobe reports a message if and only if a matching unreceived send is pending on that communicator at that moment, and MPI_Probe and MPI_Iprobe describe (source, tag, element count) the message that the next receive with the same source and tag arguments would get. Probing any number of times, matching or not, never consumes, reorders or alters pending messages, receives or requests.",
 ["schedules","histories"],"All interleavings of probes with sends, receives and completions, with any pending queue contents, exact and wildcard tags.",
 "The tests probe only in a fixed sequence with one or two pending messages.",
 ["probe.c","send.c","recv.c","list.c"],
 [("read-only search of the pending-send queue","probe.c MPI_Iprobe")])

p("C08","Handles stay unique, stable and recyclable at any population",
 "Every communicator, request and datatype handle returned is non-null, differs from every other live handle of its kind, and keeps denoting its object until that object is released, however many objects are created and released in whatever order. At least 262,000 objects can be live at once, released handles make room for new objects indefinitely, and running out ends in an immediate diagnosed termination, never in a reused live handle or corrupted object.",
 ["histories","schedules"],"All create/release histories of mixed object kinds, crossing every growth boundary of the handle table and up to its limit.",
 "Tests keep at most some tens of objects alive, inside the first statically allocated block of 256 handles.",
 ["handles.c","req.c","comm.c","type.c"],
 [("block-structured handle table with free list","handles.c mpi_alloc_handle/mpi_free_handle/mpi_handle_to_ptr")],
 [("blocks, nextfree","handle table and free list","handles.c")])

p("C09","Releasing an object while it is in use does not disturb communication in flight",
 "Freeing a datatype that pending operations or other datatypes were built with, or freeing an active request, takes effect for the caller at once (the handle becomes null) but the operations in flight still complete with the right data, layout, status and matching order, and derived types built from the freed one stay valid. The freed handle value may be reused by new objects without the old operation ever touching the new object.",
 ["schedules","histories"],"All points at which MPI_Type_free or MPI_Request_free can be issued relative to posting, matching and completion of operations that use the object, with any reuse of handles and memory after it.",
 "No test frees anything that is still in use; the failure is a use-after-free visible only under particular handle and heap reuse.",
 ["type.c","req.c","send.c","recv.c","handles.c","copy.c"],
 [("type lifetime during pending operations","type.c MPI_Type_free, send.c, recv.c"),("freed active requests","req.c MPI_Request_free")])

p("C10","Memory exhaustion at any point is a diagnosed stop, never corruption",
 "If any single memory allocation inside the library fails, at any point of any history, the call in which it happens either still completes correctly or terminates the program abnormally with a diagnostic. It never dereferences a null pointer, continues with a half-made object, reports success without doing its work, or damages user buffers.",
 ["fault_sequences","histories"],"Every allocation performed along every history, failed one at a time, once or permanently from that point on.",
 "Allocation failure never occurs in the test environment.",
 ["handles.c","list.c","type.c","comm.c"],
 [("checked allocation","handles.c mpi_malloc, list.c AP_list_new/AP_listitem_malloc, type.c")])

p("C11","Behaviour is independent of leftover memory contents and allocator behaviour",
 "For the same sequence of calls the library returns the same results, delivers the same data and ends the same way whatever bytes fresh heap memory, the stack and output arguments happened to contain beforehand, and whether the allocator reuses freed blocks immediately, in random order or never. In particular no field of any object or status the MPI interface defines is ever taken from uninitialised or released memory.",
 ["histories","configurations","fault_sequences"],"Every history, under every initial content of heap and stack memory and every allocator reuse policy.",
 "Fresh process memory is zero in tests, which hides every missing initialisation.",
 ["type.c","send.c","recv.c","req.c","handles.c","comm.c"],
 [("initialisation of freshly allocated objects","type.c Type_struct, send.c/recv.c, handles.c")])

p("C12","Balanced use does not accumulate memory or handles",
 "When a program repeats a sequence of calls that releases everything it creates (requests completed or freed, datatypes, communicators and groups freed, every message received), the library's memory consumption and number of occupied handles after each repetition stop growing after the first few repetitions, so such a program can run forever. This holds for every such sequence and every order of the releases.",
 ["histories"],"Every balanced epoch of operations in any order, repeated many hundreds of times.",
 "Tests run each construct once; a leak of one list item or handle per epoch never shows.",
 ["handles.c","list.c","req.c","comm.c","type.c"],
 [("handle and list item recycling","handles.c mpi_free_handle, list.c AP_list_delete_item, comm.c MPI_Comm_free, type.c MPI_Type_free")])

p("C13","A derived datatype denotes exactly the layout its constructor describes",
 "For every tree of constructors (contiguous, vector, hvector, indexed, hindexed, indexed_block, struct, dup) over predefined and derived types, with zero counts and block lengths, negative, overlapping-free or very large displacements and explicit MPI_LB / MPI_UB markers, the resulting type places each element where MPI's typemap rules put it in every kind of transfer, and its size, lower bound, upper bound and extent are those of that typemap (the extent of a type without explicit bounds is its span rounded up to a multiple of its largest basic element). This does not depend on what types were created or freed before or after, on element counts up to a million, or on the contents of memory; every predefined type of the interface is usable with its documented size.",
 ["histories","inputs","configurations"],"All constructor trees and arguments, in all create/free histories and under hostile heap contents and reuse.",
 "Tests check a few fixed layouts in freshly zeroed memory; bounds fields, nesting, empty types and recycled memory are not explored.",
 ["type.c","type_const.c","copy.c"],
 [("typemap flattening and bounds","type.c Type_struct and constructors, calc_lb/calc_ub/Type_extent"),("predefined type table","type_const.c, type.c Simpletype_length")])

p("C14","Packing is a faithful, bounded stream",
 "Packing appends the elements of each item in typemap order at the given position and advances the position by exactly the packed size, unpacking reads them back in order into any layout with the same element sequence, and an item packed in pieces, in any interleaving with other pack buffers and operations, or sent and received as MPI_PACKED, yields the same data. No call reads or writes outside the first outsize / insize bytes of the packed buffer or outside the described elements of the other buffer, an item that does not fit terminates the program with a diagnostic, and MPI_Pack_size never understates the space an item needs.",
 ["histories","inputs","schedules"],"All sequences of pack, unpack, and packed-message operations over any datatypes, buffer sizes and starting positions.",
 "Tests pack a few fixed items into ample buffers.",
 ["pack.c","type.c","copy.c"],
 [("bounded element-wise copy","pack.c Pack/Unpack"),("size query","pack.c Pack_size")])

p("C15","Collectives deliver a process its own contribution and nothing else",
 "On every communicator, each collective (barrier, broadcast, gather(v), allgather(v), scatter(v), reduce, allreduce, reduce_scatter, scan, alltoall(v,w)) leaves in the receive buffer exactly the caller's own contribution, placed by the given counts, displacements and datatypes, for any predefined or user-defined operation; with MPI_IN_PLACE the buffer keeps its contents. It touches no other memory (also with displacements beyond 2 GiB), and neither observes nor disturbs point-to-point operations pending on the same or any other communicator.",
 ["schedules","histories","inputs"],"All collectives with all arguments, inserted at any point of any point-to-point history on any communicator.",
 "Tests run each collective alone with basic types; placement, in-place and interference need combined histories.",
 ["collective.c","copy.c","op.c"],
 [("self copy","collective.c -> copy.c copy_data2"),("in-place shortcuts","collective.c, mpi.c mpi_c_in_place")])

p("C16","C and Fortran bindings are interchangeable",
 "Every operation has the same effect through its Fortran binding as through its C binding, and handles, statuses and in-flight operations created through one binding can be used, completed and freed through the other at any point. The Fortran bindings read and write only the INTEGER-sized (or address-sized where declared so) arguments given to them, return MPI_SUCCESS in the error argument, and honour the Fortran MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE everywhere their C counterparts are accepted.",
 ["histories","schedules","programs"],"All histories with every call independently issued through either binding.",
 "The test suite has a separate C and a separate Fortran program with fixed calls and never mixes them.",
 ["send.c","recv.c","req.c","probe.c","collective.c","comm.c","group.c","type.c","pack.c","getcount.c","cart.c","mpi.c","fort.F90","mpif.h"],
 [("Fortran wrappers","every FC_FUNC entry point"),("Fortran constants' addresses","mpi.c mpi_save_fort_pointers/mpi_c_status/mpi_c_statuses/mpi_c_in_place, fort.F90")])

p("C17","Communicators are isolated single-process worlds with independent lifetimes",
 "Every communicator obtained by duplication, splitting, creation from a group, cartesian or inter-communicator construction or merging is new, has size 1 and rank 0, starts with no pending operations and shares none with any other, before, during and after its life; splitting with MPI_UNDEFINED or creating from an empty or null group gives MPI_COMM_NULL. Freeing a communicator sets the handle to MPI_COMM_NULL and affects no other communicator or request; group operations on the group of a communicator give the one-process or empty group that set algebra prescribes, and cartesian queries report one process at coordinate 0 in every dimension.",
 ["histories","schedules"],"All histories of communicator and group construction, use and release interleaved with traffic on all live communicators, with handle reuse.",
 "Tests create a few communicators and never reuse a freed one's slot while others carry traffic.",
 ["comm.c","group.c","cart.c","ic_merge.c","handles.c"],
 [("fresh queues per communicator","comm.c mpi_comm_new"),("release","comm.c MPI_Comm_free"),("group operations","group.c"),("topology","cart.c")])

p("C18","MPI_Wtime tells the time of the system clock",
 "At every moment MPI_Wtime returns the system time in seconds with microsecond resolution, so that differences measure elapsed time, through second boundaries, far-past and far-future dates, and forward or backward clock adjustments, through both bindings and regardless of what other calls are made. If the clock cannot be read the program is terminated with a diagnostic instead of getting a made-up time.",
 ["schedules","fault_sequences"],"All clock readings, jumps and failures at any point of any history.",
 "Tests cannot control the clock.",
 ["time.c"],[("conversion of the system clock","time.c MPI_Wtime")])

p("C19","Identification strings fit the caller's buffers whatever the host reports",
 "MPI_Get_processor_name, MPI_Error_string and MPI_Get_library_version return a string whose reported length equals its actual length and fits, with its terminator, inside MPI_MAX_PROCESSOR_NAME, MPI_MAX_ERROR_STRING and MPI_MAX_LIBRARY_VERSION_STRING bytes, and write nothing beyond; the Fortran library-version string is blank-padded to its full length. The processor name is the host's name, cut to fit, for any host name length including one with no terminator, and a fixed placeholder if the host name cannot be obtained; none of these calls ever fails.",
 ["fault_sequences","configurations","inputs"],"All host names (any length and termination), host name lookup failures, error codes, in any state of the library.",
 "Tests see only the build machine's short host name.",
 ["mpi.c"],[("bounded copies","mpi.c MPI_Get_processor_name, MPI_Error_string, MPI_Get_library_version")])

p("C20","The thread level granted is one the library honours",
 "MPI_Init_thread (C and Fortran) returns a level between MPI_THREAD_SINGLE and MPI_THREAD_MULTIPLE such that a program obeying the rules of that level gets the same results as a single-threaded one: from any thread, one at a time, if MPI_THREAD_SERIALIZED is granted, and concurrently, with calls interleaved at any instruction, if MPI_THREAD_MULTIPLE is granted. A level the library cannot honour is never granted, whatever level was asked for.",
 ["schedules","configurations"],"All thread interleavings permitted by the granted level, for each requested level.",
 "Tests are single-threaded and ignore the granted level.",
 ["mpi.c","fort.F90","handles.c","send.c","recv.c"],
 [("level negotiation","mpi.c MPI_Init_thread, fort.F90 mpi_init_thread"),("unprotected global state","handles.c, comm queues")])

p("C21","Initialisation, finalisation and abort behave as documented at any point",
 "MPI_Initialized reports true exactly between a successful initialisation (any binding or variant) and finalisation, and initialisation gives a working MPI_COMM_WORLD of one process. Initialising twice is a diagnosed termination; initialising again after finalisation is either that or a fully clean start. MPI_Abort at any point terminates with its error code as exit status and a message, and finalisation succeeds with operations still pending and with any number of objects alive, without touching user buffers.",
 ["crash_points","histories"],"All points of any history at which finalisation, repeated initialisation or abort can be called.",
 "The tests initialise and finalise once and never abort.",
 ["mpi.c","handles.c","fort.F90"],
 [("lifecycle","mpi.c MPI_Init/MPI_Finalize/MPI_Abort, handles.c mpi_destroy_handles")],
 [("initialized","lifecycle flag","mpi.c")])

p("C22","Detected misuse stops the program before it takes effect",
 "A send to or receive or probe from a rank other than 0, MPI_PROC_NULL (or any source), a collective with a root other than 0 (or MPI_ROOT where allowed), transferring with an uncommitted datatype, a collective receiving more than is sent, packing or unpacking beyond the buffer, building a group or topology of more than one process, or using a null group, terminates the program abnormally with a diagnostic whatever the history and the other arguments, and changes no user data outside the result arguments of that call. Correct calls are never rejected.",
 ["histories","inputs","fault_sequences"],"All misuse kinds inserted at any point of any history with any other arguments.",
 "Tests cannot call what terminates them.",
 ["send.c","recv.c","probe.c","collective.c","copy.c","pack.c","group.c","cart.c"],
 [("argument checks","send.c, recv.c, probe.c, collective.c, copy.c, pack.c, group.c, cart.c")])

p("C23","Language headers and library agree on constants",
 "Every constant that mpi.h, mpif.h and the library's predefined datatype table share has the same meaning in all three, for every supported configuration of Fortran type sizes, and initialising through Fortran refuses to run when they disagree.",
 ["configurations"],"All supported configure-time sizes and Fortran compilers.",
 "The tests run one configuration.",
 ["mpi.h","mpif.h","type_const.c","type.h","mpi.c"],[("consistency check","mpi.c mpi_init_fort")])

p("C24","Handle conversion between C and Fortran is a bijection",
 "Converting a communicator, group, request or operation handle from C to Fortran and back, in any order, yields the same handle for every handle value.",
 ["inputs"],"All handle values.",
 "The conversions are not tested for all values.",
 ["comm.c","group.c","req.c","collective.c"],[("identity conversions","MPI_*_f2c / MPI_*_c2f")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"[.](\s|$)",x["statement"])); 
    if n>3: print(x["id"],n)
