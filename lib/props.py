#!/usr/bin/env python3
"""The properties, and from them properties.jsonl and MANIFEST.json.  Run it after a change: python3 lib/props.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C, IO = "source/cocpp/", "include/cocpp/", None

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe, hook=None, note=None):
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
                              "hook_needed": hook}, "_note": note})


SCHED = ["schedules", "programs", "histories"]
WHY = "The existing tests run a handful of fixed programs under whatever interleaving the machine happens to give; "

prop("C01", "At most one holder of an exclusive lock; only the holder can unlock",
     "At any time at most one coroutine or converted thread holds a plain, recursive, timed or recursive timed mutex or a spin lock. "
     "Trying to lock succeeds exactly when the lock is free (or, for the recursive ones, already held by the caller) and never blocks. "
     "Unlocking a mutex by anyone but the holder throws an exception and changes nothing.",
     SCHED, "all programs of lock, try_lock, timed lock and unlock calls by coroutines in one or several schedulers and by ordinary threads, under all interleavings",
     WHY + "two coroutines entering the critical section together needs an interleaving inside lock or unlock, and nothing checks the ownership of an unlock.",
     [S + "sync/co_mutex.cpp", S + "sync/co_recursive_mutex.cpp", S + "sync/co_spinlock.cpp", C + "sync/co_timed_addition.h"],
     [("owner word guarded by a spinlock", "co_mutex.cpp: lock, try_lock, unlock"), ("owner and count", "co_recursive_mutex.cpp")],
     ["return of lock/try_lock/unlock in the calling coroutine", "a counter which is only changed with the lock held"])
prop("C02", "A released lock is taken by a waiter: no lost wake-up",
     "Whenever an exclusive lock is free and coroutines are blocked in lock, one of them gets it: no execution comes to rest with a free lock and a blocked waiter. "
     "If every holder eventually unlocks, every lock call returns.",
     SCHED, "all programs in which several coroutines, in the same or in different schedulers, contend for a lock; all interleavings of blocking and unlocking",
     WHY + "a wake-up is lost only if an unlock falls into the few instructions in which a waiter goes to sleep, and then a test would just hang.",
     [S + "sync/co_mutex.cpp", S + "sync/co_recursive_mutex.cpp", S + "core/co_ctx.cpp", S + "core/co_env.cpp"],
     [("list of waiters, woken by unlock", "co_mutex.cpp: unlock"), ("waiting state of a coroutine", "co_ctx.cpp: enter_wait_resource_state, leave_wait_resource_state"),
      ("waking of a sleeping scheduler", "co_env.cpp: wake_up, sleep_if_need__")],
     ["operations which have not returned when nothing happens any more"])
prop("C03", "A recursive lock is free again after as many unlocks as locks",
     "The holder of a recursive or recursive timed mutex can lock it again without blocking, by each of the ways of locking. "
     "Nobody else gets it until it has been unlocked as many times as it has been locked; one unlock too many throws an exception.",
     SCHED, "all nestings of lock, try_lock, timed lock and unlock by several coroutines, all interleavings",
     WHY + "they lock twice and unlock twice without anybody else being interested in the lock in between.",
     [S + "sync/co_recursive_mutex.cpp", C + "sync/co_recursive_timed_mutex.h", C + "sync/co_timed_addition.h"],
     [("count of nested locks", "co_recursive_mutex.cpp: lock, try_lock, unlock")],
     ["return of lock/try_lock/unlock"])
prop("C04", "Shared mutex: one writer or any number of readers",
     "While a coroutine holds a shared (or shared timed) mutex exclusively nobody else holds it in any way; otherwise any number of coroutines can hold it shared at the same time, and a reader does not wait while there are only readers. "
     "Whoever is blocked gets the lock when it has become possible: no execution comes to rest with a waiter for whom the lock is available. "
     "Unlocking in a way in which the caller does not hold it throws an exception and changes nothing.",
     SCHED, "all programs of exclusive and shared, blocking, trying and timed locks by several coroutines, all interleavings",
     WHY + "they never have readers and writers queued up in both orders while the lock changes hands.",
     [S + "sync/co_shared_mutex.cpp", C + "sync/co_shared_timed_mutex.h"],
     [("owner, set of readers and list of waiters", "co_shared_mutex.cpp"), ("waking of the first writer or the first readers", "co_shared_mutex.cpp: wake_up_waiters__")],
     ["return of the operations", "operations which have not returned when nothing happens any more"])
prop("C05", "Timed locks give up, but not before the deadline, and else lock",
     "A timed attempt to lock returns false only when its deadline has passed and the lock was not available to it before, and always returns at the latest soon after the deadline. "
     "It returns true exactly if the caller now holds the lock. "
     "An attempt which gave up leaves nothing behind: others get the lock as if it had never been made.",
     SCHED, "all programs of timed lock calls with all kinds of deadlines (past, now, near, far) mixed with other lock operations; all interleavings of expiry, unlock and wake-up",
     WHY + "expiry and unlock at the same moment cannot be arranged with real time.",
     [C + "sync/co_timed_addition.h", C + "sync/co_shared_timed_mutex.h", C + "sync/co_timed_mutex.h", C + "sync/co_recursive_timed_mutex.h", S + "core/co_timer.cpp"],
     [("retry until the deadline", "co_timed_addition.h: try_lock_for, try_lock_until"), ("the same for shared locks", "co_shared_timed_mutex.h")],
     ["return value and time of return"])
prop("C06", "Condition variable: no notification is lost, nobody wakes without one",
     "Waiting unlocks the lock and begins to wait in one step; when wait returns, the caller holds the lock again. "
     "notify_one ends the wait of one waiter if there is any, notify_all and the end of a coroutine which registered a notification end that of all who wait at that time; nobody else's wait without a deadline ends. "
     "Waiting with a predicate returns, with the lock held, when the predicate is true, at once if it already is.",
     SCHED, "all programs of wait (with and without predicate), notify_one, notify_all and notification at the end of a coroutine, with every kind of lock; all interleavings",
     WHY + "a notification between the unlock and the beginning of the wait needs one particular interleaving.",
     [S + "sync/co_condition_variable.cpp", C + "sync/co_condition_variable.h"],
     [("list of waiters with their state", "co_condition_variable.cpp: add_waiter__, notify_one, notify_all"), ("registration for the end of a coroutine", "co_condition_variable.cpp: notify_all_at_co_exit")],
     ["return of wait/notify", "a variable which is only changed with the lock held"])
prop("C07", "Timed condition waits: notified or expired, never both, never early",
     "A timed wait reports a timeout only after its deadline, and otherwise exactly if a notification was meant for it; a notification is never used up by a waiter which reports a timeout. "
     "With a predicate it returns the value of the predicate, which is true if it has returned before the deadline. "
     "In either case the caller holds the lock when the wait returns, and it returns soon after the deadline if the lock is available.",
     SCHED, "all programs mixing timed and untimed waits with notifications, all deadlines, all interleavings of expiry, notification and re-locking",
     WHY + "expiry and notification at the same moment cannot be arranged with real time.",
     [C + "sync/co_condition_variable.h", S + "sync/co_condition_variable.cpp", S + "core/co_timer.cpp"],
     [("first of notification and expiry decides", "co_condition_variable.cpp: waiter::finish"), ("timer of the wait", "co_condition_variable.h: wait_for, wait_until")],
     ["return value and time of return", "number of waits ended by notifications"])
prop("C08", "Semaphores hand out exactly what has been released",
     "The number of successful acquisitions never exceeds the initial value plus the units released, and an acquisition blocks only while nothing is available: no execution comes to rest with an available unit and a blocked acquirer. "
     "A release waits while the maximum is reached and goes on as soon as there is room. "
     "try_acquire fails only if nothing is available; a timed acquisition gives up only after its deadline, without having taken anything.",
     SCHED, "all programs of acquire, try_acquire, timed acquire and release of one or several units on binary and counting semaphores with small maxima; all interleavings",
     WHY + "they use one acquirer and one releaser; several waiters for one unit, or a full semaphore, do not occur.",
     [C + "sync/co_counting_semaphore.h", C + "sync/co_binary_semaphore.h"],
     [("counter, lock and two condition variables", "co_counting_semaphore.h: acquire, try_acquire_until, release")],
     ["return of the operations", "operations which have not returned when nothing happens any more"])
prop("C09", "Latches and wait groups open when the count reaches zero, and only then",
     "wait returns only after the count has reached zero, and then always, for all waiters and for those who come later. "
     "try_wait of a latch tells whether it has. "
     "Counting a latch down by more than is left throws an exception and changes nothing; count down and wait is both in this order.",
     SCHED, "all programs of count_down, arrive_and_wait, wait, try_wait, done with several waiters, all initial counts including 0, all interleavings",
     WHY + "several waiters and the last count down at the moment when a waiter begins to wait do not occur.",
     [S + "sync/co_latch.cpp", S + "sync/co_wait_group.cpp"],
     [("counter and notification of all", "co_latch.cpp: count_down, wait; co_wait_group.cpp: done, wait")],
     ["return of the operations"])
prop("C10", "Barrier: nobody passes a phase before all have arrived, everybody passes then",
     "A wait for a phase returns only after as many arrivals as the phase expects, and then always, also if others have already gone on to the next phases. "
     "Arriving and dropping reduces the expectation of the following phases by one. "
     "Arriving for more participants than the phase still expects throws an exception and changes nothing.",
     SCHED, "all programs of arrive, wait, arrive_and_wait, arrive_and_drop over several phases, with expected counts from 1, all interleavings",
     WHY + "a slow waiter which is overtaken by the next phase does not occur.",
     [S + "sync/co_barrier.cpp", C + "sync/co_barrier.h"],
     [("arrival token with the number of the phase", "co_barrier.cpp: arrive__, wait")],
     ["return of the operations"])
prop("C11", "call_once: the function succeeds once, and everybody waits for it",
     "For every flag the function is called by one caller at a time, and not again after it has returned normally. "
     "No call returns before the function has returned normally. "
     "If it throws, the exception goes to the caller who called it, and one of the others calls it next.",
     SCHED, "all programs of several callers with functions which return or throw, yield or not; all interleavings",
     WHY + "callers which arrive while the function is running or has just thrown do not occur.",
     [C + "sync/co_call_once.h"], [("state of the flag", "co_call_once.h")],
     ["begin and end of the function, return of call_once"])
prop("C12", "Buffered channels deliver every value once and in order",
     "The values taken from a channel are those put into it, each one once, in the order in which they were put in. "
     "A push blocks exactly while the buffer is full (never, if it is unlimited), a pop exactly while it is empty and the channel open: no execution comes to rest with a push and room, or a pop and a value. "
     "empty, closed and the size limit tell the truth, also those of copies: a copy is the same channel.",
     SCHED, "all programs of pushes and pops (all spellings, and iteration) by several producers and consumers, capacities 1, 2, 3 and unlimited, all interleavings",
     WHY + "one producer and one consumer, and a buffer which is rarely full and empty in turn.",
     [C + "event/co_chan.h"], [("queue, lock and two condition variables", "co_chan.h: push, pop")],
     ["values returned, in the order of the calls", "operations which have not returned when nothing happens any more"])
prop("C13", "Closing a channel ends all waiting and loses nothing that was accepted",
     "After close every push is refused and every blocked push or pop returns. "
     "Pops still deliver what the channel had accepted before, then report the end; an iteration ends after the last value. "
     "A push which was refused has delivered nothing, one which was accepted is delivered or still in the channel.",
     SCHED, "all programs in which a channel of any capacity is closed, once or several times, while others are blocked in it or about to be; all interleavings",
     WHY + "closing at the moment when somebody begins to wait does not occur.",
     [C + "event/co_chan.h"], [("closed flag and notification of all", "co_chan.h: close")],
     ["return of push/pop/iteration"])
prop("C14", "Unbuffered channels: a push returns when its value has been taken",
     "A push into a channel without buffer returns true only after its value has been taken by a pop, or the channel has been closed. "
     "Values are taken one at a time in the order they were offered, with any number of producers and consumers. "
     "No execution comes to rest with an open channel and both a blocked push and a blocked pop.",
     SCHED, "all programs of several producers and consumers on an unbuffered channel, with and without close; all interleavings",
     WHY + "several producers at the same time do not occur.",
     [C + "event/co_chan.h"], [("push waits until its value has been taken", "co_chan.h: push")],
     ["order of the returns of push and pop"])
prop("C15", "Waiting for a coroutine ends with it and gives its result or exception",
     "Every coroutine which is created runs its function exactly once. "
     "wait and join return only after the function has ended, and then always; wait returns the value which the function returned, and asking for another type throws. "
     "An exception which ends the function is thrown once, in the first one who waits for or joins the coroutine.",
     SCHED, "all programs which create, wait for and join coroutines in one or several schedulers, with one or several waiters, functions which return and which throw; all interleavings",
     WHY + "waiting at the moment when the coroutine ends, several waiters, and exceptions seen by the waiter do not occur together.",
     [C + "co/co_co.h", S + "co/co.cpp", S + "core/co_env.cpp", S + "core/co_ctx.cpp", S + "core/co_return_value.cpp"],
     [("finished state and list of those to wake", "co_ctx.cpp: real_entry; co_env.cpp: wait_ctx"), ("stored exception", "co_ctx.cpp: check_and_rethrow_exception")],
     ["begin and end of the function, return value of wait"])
prop("C16", "Timed waits for a coroutine: result if it ended, nothing before the deadline",
     "wait_for and wait_until return nothing only when the deadline has passed and the coroutine had not ended, and else its result or exception. "
     "They always return soon after the deadline or the end. "
     "A wait which gave up leaves nothing behind: the coroutine and those who wait for it later behave as if it had never been made.",
     SCHED, "all programs which mix timed and untimed waits for the same coroutine, all deadlines, all interleavings of expiry and end",
     WHY + "expiry and end at the same moment cannot be arranged with real time.",
     [C + "co/co_co.h", S + "core/co_env.cpp", S + "core/co_timer.cpp"], [("timer of the wait", "co_env.cpp: wait_ctx with timeout")],
     ["return value and time of return"])
prop("C17", "A coroutine lives as long as it is needed and is destroyed once afterwards",
     "What a coroutine has captured is never destroyed before its function has ended, exactly once afterwards, and neither its memory nor its stack is used after it has been released. "
     "Giving up a handle (detach, join, destruction) neither ends nor delays the coroutine, except that join and destruction wait for it. "
     "Coroutines which have ended and been given up are destroyed when their scheduler runs others.",
     SCHED, "all programs which create, detach, join and destroy coroutines while these run, wait, or end; all interleavings",
     WHY + "an access to released memory mostly goes unnoticed, and the end at the moment of the detach does not occur.",
     [S + "co/co.cpp", S + "core/co_env.cpp", S + "core/co_ctx.cpp", S + "core/co_ctx_factory.cpp", S + "core/co_stack_factory.cpp"],
     [("flags which forbid the destruction", "co_ctx.cpp: can_destroy, lock_destroy"), ("destruction by the scheduler", "co_env.cpp: remove_detached_ctx__")],
     ["destructor of what the coroutine has captured", "every memory access of the library, against the released blocks"])
prop("C18", "Sleeping and timers: not early, not lost, as often as asked for",
     "A sleep returns at or after its deadline, and always returns, soon after it, whatever else is sleeping. "
     "A one-shot timer calls its function (the one set last) once per start, at or after its expiry; a periodic one once per interval until it is stopped; timers which expire at the same time all fire. "
     "No expiry after stop has returned leads to a call, nor does any if everything runs in one thread; reset starts the interval again.",
     SCHED, "all programs of sleeps and of start, stop, reset and queries on one-shot, periodic and absolute timers, with equal and different expiry times; all interleavings with the timer thread",
     WHY + "timers with the same expiry time and stop at the moment of expiry cannot be arranged with real time.",
     [S + "core/co_timer.cpp", S + "core/co_manager.cpp", C + "co/co_co.h"],
     [("ordered queue of timers", "co_manager.cpp: timer_routine__, insert_timer_to_queue__, remove_timer_from_queue__"), ("state of a timer", "co_timer.cpp: start, stop, expire__")],
     ["virtual time of every call and callback"])
prop("C19", "The most urgent coroutine runs; equally urgent ones take turns",
     "When a scheduler chooses, no runnable coroutine of a more urgent priority (smaller number) is passed over. "
     "Among runnable coroutines of the same priority which keep yielding, none is chosen twice while another one waits for its turn. "
     "A change of priority takes effect at the next choice; waiting changes nothing: who has been woken is runnable with its own priority.",
     ["schedules", "programs"], "all programs of coroutines with different and equal priorities in one scheduler, which yield, end, wait for each other and for notifications, and change priorities",
     WHY + "they look at one order of two or three coroutines.",
     [S + "core/co_env.cpp", S + "core/co_ctx.cpp"],
     [("lists per priority, the chosen one goes to the end", "co_env.cpp: choose_ctx_from_normal_list__, handle_priority_changed, update_min_priority__")],
     ["the order in which coroutines go on after a yield or a wait"])
prop("C20", "Priorities are what was asked for, limited to the permitted range",
     "The priority of a coroutine is the one it was created with or the last one set, by whomever, limited to 0 to 99; 99 if none was asked for; waiting for others does not change it. "
     "Setting it neither disturbs nor duplicates the coroutine, whether it is running, runnable, waiting or finished.",
     ["schedules", "programs", "inputs"], "all programs which set and read the priority of other coroutines and their own, with values in and out of range; all interleavings with the run of these coroutines",
     WHY + "setting the priority of a coroutine which is running in another thread does not occur.",
     [S + "core/co_ctx.cpp", S + "core/co_env.cpp", C + "core/co_ctx_config.h"], [("limits and notification of the scheduler", "co_ctx.cpp: set_priority; co_env.cpp: handle_priority_changed")],
     ["priority read by the coroutine and by others", "end of every coroutine"])
prop("C21", "Coroutines run on the thread of their scheduler, exclusive ones are left alone",
     "A coroutine created for a certain scheduler runs only on that scheduler's thread, which is there however long it had nothing to do, if the scheduler was created to stay; a thread which calls the library becomes a scheduler of its own, for itself, or for others as well if it asks for it. "
     "At most one coroutine runs on a thread at a time, and one coroutine on at most one thread. "
     "A coroutine created without asking for a scheduler never runs in one which was exclusive when it was created, nor on a converted thread.",
     SCHED + ["configurations"], "all programs which create coroutines for certain, any, and exclusive schedulers and on converted threads; all interleavings",
     WHY + "nothing compares the threads of several coroutines while schedulers become exclusive.",
     [S + "core/co_manager.cpp", S + "core/co_env.cpp", C + "core/co_ctx_config.h"],
     [("choice of the scheduler", "co_manager.cpp: get_best_env__, create_and_schedule_ctx"), ("exclusive flag", "co_env.cpp: set_exclusive, can_schedule_ctx")],
     ["thread of every step of every coroutine"])
prop("C22", "Coroutine local variables are private and survive every switch",
     "A coroutine local variable starts with its initial value in each coroutine and then has the value which the same coroutine gave it last, whatever others do and wherever they run. "
     "Different names are different variables.",
     SCHED, "all programs of reads and writes of several local variables by several coroutines and converted threads, with shared and own stacks; all interleavings",
     WHY + "two coroutines with one variable.",
     [C + "core/co_local.h", C + "core/co_ctx.h", C + "co/co_co.h"], [("storage per coroutine", "co_ctx.h: local_storage")],
     ["value read before every write"])
prop("C23", "Coroutines on a shared stack find it as they left it",
     "Several coroutines can use the shared stack of a scheduler: whenever one goes on, its stack contents and registers are those it had when it was interrupted, however deep it was and whatever the others did. "
     "They and coroutines with own stacks can be mixed freely, and all of them run to their end.",
     SCHED + ["configurations"], "all programs of coroutines with shared and own stacks, of different depth, which yield, block, sleep and end, in one or several schedulers; all interleavings",
     WHY + "contents of deep stacks are not compared, and the sequences of switches between shared and own stacks are few.",
     [S + "core/co_env.cpp", S + "core/co_ctx.cpp", S + "core/co_stack.cpp"],
     [("copy by way of the idle coroutine", "co_env.cpp: switch_shared_stack_ctx__, save_shared_stack__, restore_shared_stack__")],
     ["contents of local arrays at every depth after every switch", "callee saved registers"])
prop("C24", "A switch preserves registers and the stack",
     "When a coroutine goes on after a yield or after blocking, its callee saved registers and its stack contents are unchanged; it can use a stack of the size it asked for. "
     "The stacks of different coroutines never overlap.",
     SCHED + ["configurations"], "all programs of coroutines with different stack sizes and depths which yield and block at any depth; all interleavings",
     WHY + "contents of deep stacks and registers are not compared.",
     [S + "core/co_vos_gcc_x86_64.cpp", S + "core/co_stack_factory.cpp", S + "core/co_stack.cpp"],
     [("saving and loading of the registers", "co_vos_gcc_x86_64.cpp: switch_to, init_ctx"), ("allocation of stacks", "co_stack_factory.cpp")],
     ["contents of local arrays at every depth after every switch", "callee saved registers"])
prop("C26", "A pipeline delivers what its stages make of the source, and ends",
     "The consumer of a pipeline gets, in order, exactly the values which its stages (map, filter, group, reduce, take, skip, fork) make of the source, then the end; take ends after as many values as asked for. "
     "A stage calls its function once for each value which reaches it, in order. "
     "When the source has ended and everything is consumed, or when the consumer has closed its end, every coroutine of the pipeline ends, also with an endless source.",
     SCHED + ["configurations"], "all chains of stages over all kinds of sources and channel sizes, with consumers which read everything, stop early or close; all interleavings of the coroutines of the stages",
     WHY + "consumers which go away early, endless sources and the coroutines left behind are not looked at.",
     [C + "pipeline/co_pipeline.h", C + "pipeline/co_pipeline_op.h", C + "event/co_chan.h"], [("one coroutine and one channel per stage", "co_pipeline.h")],
     ["values read by the consumer", "calls of the functions of the stages", "destruction of the functions of the stages"])
prop("C27", "Calls for sockets and files transfer data as the system does, and let others run",
     "Data which is written by one coroutine and read by another arrives complete, in order and once; a read returns what has arrived, 0 at the end of the data, and the calls for exactly n bytes transfer n bytes unless the data ends or the system reports an error; datagrams arrive as a whole, once, and name their sender. "
     "A call which would have to wait, or which is interrupted by a signal, is continued, not reported as an error, and other coroutines of the thread run meanwhile. "
     "Any other error of the system is returned to the caller.",
     SCHED + ["fault_sequences", "inputs"], "all programs of reads, writes, connects and accepts by several coroutines over connections, datagram sockets and files, with all sequences of short transfers, interruptions, refusals and errors of the system calls",
     WHY + "short transfers, interruptions and full buffers practically do not occur with small amounts of data on one machine.",
     [S + "io/co_io.cpp", S + "io/co_net.cpp", S + "io/co_client.cpp", S + "io/co_server.cpp", S + "io/co_file.cpp"], [("non-blocking calls repeated after yielding", "co_io.cpp, co_net.cpp"), ("transfers of exactly n bytes", "co_client.cpp, co_file.cpp")],
     ["return value, error and data of every call"])
prop("C28", "Events call every subscriber in order, and nobody else",
     "Publishing calls each function which is subscribed at that time once, in the order of subscription, with the published values, before it returns. "
     "A function which has been unsubscribed is not called by later publications; handles are different for every subscription. "
     "The functions may themselves subscribe and unsubscribe, also themselves: the publication still calls all others who stay subscribed.",
     SCHED, "all programs of subscribe, unsubscribe and publish by several coroutines in different schedulers and by the functions which are called; all interleavings",
     WHY + "subscribing while another thread publishes does not occur.",
     [C + "event/co_event.h"], [("ordered map of functions under a lock", "co_event.h: sub, unsub, pub")],
     ["calls of the functions, return of the operations"])
prop("C29", "More coroutines than threads: everyone runs, the pool grows as far as it should",
     "Every coroutine which is created without a scheduler of its own runs to its end, however many there are, although others keep their threads busy for long times and although schedulers are created, put to sleep and destroyed meanwhile. "
     "Coroutines created one after the other, each when the one before has begun, begin although all before them keep their threads, up to the base number of threads; and while the maximum is not below this number, no more threads than that are used. "
     "All limits for the number of threads which can be set are permitted.",
     SCHED + ["configurations"], "all programs of more coroutines than threads, some of which keep their thread busy, with different base and maximum numbers of threads; all interleavings with the supervision thread",
     WHY + "the destruction of a scheduler at the moment when a coroutine is given to it does not occur.",
     [S + "core/co_manager.cpp", S + "core/co_env.cpp", S + "core/co_env_factory.cpp"],
     [("choice and creation of schedulers", "co_manager.cpp: get_best_env__"), ("destruction of superfluous ones", "co_manager.cpp: destroy_redundant_env__, clean_env_routine__")],
     ["begin and end of every coroutine"])
prop("C31", "A handle stays with its coroutine; names, ids and arguments are as given",
     "Moving a handle changes nothing for the coroutine: the new handle has its id, name, state and result, the old one has no id and no name and can be destroyed at once; overwriting a handle first waits for the coroutine it had. "
     "A coroutine has the name it was created with and the same id seen from inside and from its handle, for as long as it lives. "
     "The function gets copies of the arguments it was created with, whatever the creator does with the originals later.",
     SCHED, "all programs which create coroutines with captured or passed arguments, move, overwrite, join and detach their handles and ask for names, ids and states; all interleavings with the coroutines",
     WHY + "handles are not moved while their coroutine runs, and wrong results of a moved handle depend on the coroutine having ended or not.",
     [C + "co/co_co.h", S + "co/co.cpp", S + "core/co_ctx.cpp"], [("move construction and assignment", "co.cpp"), ("arguments stored with the function", "co_co.h: init__")],
     ["results of the operations on handles, arguments seen by the function"])
prop("C32", "Blocked coroutines are served in the order in which they blocked",
     "An exclusive lock which is given back goes to the coroutine which has been blocked for it longest; a coroutine which comes later does not get it before, whichever way it tries. "
     "A writer of a shared lock does not get it before anybody who has been blocked for it longer. "
     "A notification of one wakes the coroutine which has been waiting for the condition longest.",
     SCHED, "all programs in which coroutines, in the same or in different schedulers, block for locks of all kinds or wait for a condition, one after the other, and are served by others; all interleavings",
     WHY + "the order only shows when several coroutines are blocked at the same time for longer than the library polls before it blocks.",
     [S + "sync/co_mutex.cpp", S + "sync/co_recursive_mutex.cpp", S + "sync/co_shared_mutex.cpp", S + "sync/co_condition_variable.cpp"],
     [("queue of blocked coroutines", "co_mutex.cpp, co_recursive_mutex.cpp, co_shared_mutex.cpp: lock, unlock"), ("list of waiters", "co_condition_variable.cpp: notify_one")],
     ["return of lock and wait operations, moments at which nothing can run"])
prop("C33", "The end of a coroutine and changes of its priority are announced once",
     "A function subscribed to the end of a coroutine before the coroutine's function has ended is called exactly once, after that, in the order of subscription, unless it is unsubscribed before. "
     "A function subscribed to changes of the priority is called once for every change, with the old and the new value as they are after limiting to the permitted range, before the call which makes the change returns. "
     "Setting the value which the priority already has is not announced, and nobody who has been unsubscribed is called.",
     SCHED, "all programs in which coroutines and threads subscribe to and unsubscribe from the end and the priority of coroutines, which end, or change their priority, or have it changed by others, at the same time; all interleavings",
     WHY + "the announcements are only used by the library itself, and subscribing at the moment of the end does not occur.",
     [S + "core/co_ctx.cpp", C + "core/co_ctx.h", C + "event/co_event.h", C + "co/co_co.h"],
     [("announcement at the end", "co_ctx.cpp: real_entry"), ("announcement of a change", "co_ctx.cpp: set_priority")],
     ["calls of the functions and their arguments, return of the operations"])
prop("C34", "Who has waited may destroy what was waited for",
     "A latch, barrier, semaphore, lock or condition variable may be destroyed by the one who has waited until all others have made their last call on it, although those calls may not have returned (a condition variable, if it was notified with the lock held). "
     "The calls of the others then return as usual, and nothing which has been destroyed is used. "
     "Destroying a wait group waits until all of it is done.",
     SCHED, "all programs in which coroutines and threads count down, arrive, release, notify or unlock, and one of them waits for that and then destroys the object; all interleavings",
     WHY + "objects in the tests outlive everybody who uses them, and the memory of a destroyed object usually still holds what it held.",
     [S + "sync/co_latch.cpp", S + "sync/co_barrier.cpp", S + "sync/co_wait_group.cpp", S + "sync/co_mutex.cpp", S + "sync/co_recursive_mutex.cpp", S + "sync/co_condition_variable.cpp", C + "sync/co_counting_semaphore.h"],
     [("notification with the lock held", "co_latch.cpp: count_down, co_wait_group.cpp: done, co_barrier.cpp: arrive"), ("waiting destructor", "co_wait_group.cpp: ~co_wait_group")],
     ["return of the operations, accesses to memory which has been released"])

NA = []

LEVEL = ("The model is checked exhaustively within its bounds. The library is bound to it by traces: histories generated from the model are "
         "replayed, and random programs are run under random schedules, in a deterministic simulator of threads and time which runs the real, "
         "instrumented library; TLC decides whether each recorded trace is a behaviour of the specification. Exhaustive for the model, sampled for "
         "the library. Trusted: the simulator (sequentially consistent, preemption at memory accesses and synchronisation) and TLC.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    from cv.checks import CHECKS
    na = {n["property"] for n in NA}
    ids = [p["id"] for p in PROPS]
    assert sorted(set(CHECKS)) == sorted(i for i in ids if i not in na), "checks and properties differ"
    m = {"version": 1,
         "setup_cmd": "python3 lib/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 lib/check.py " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": "TLA+ specification: exhaustive model checking with TLC, replay of model histories, validation of traces of the real library",
                     "level": "model_checking", "level_note": (p["_note"] + " " if p["_note"] else "") + LEVEL}
                    for p in PROPS if p["id"] not in na],
         "not_applicable": NA,
         "notes": "No hooks in the library: it is compiled from /repo's working tree with compiler instrumentation and linked with the simulator in sim/. "
                  "python3 lib/check.py replay <file> runs a recorded violation again. Known findings: known_findings.json."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
