#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; a property without an entry is listed as not applicable (not built)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
C = {}
def c(pid, technique, note, level="exploration"):
    C[pid] = dict(property=pid, quick_cmd="python3 run.py " + pid, thorough_cmd="python3 run.py %s --thorough" % pid,
                  evidence_file="evidence/%s.json" % pid, technique=technique, level=level, level_note=note)
MB = "property-based testing: random operator chains and source histories, "
c("C01", MB + "grammar invariant under misbehaving sources and re-entrant driving", "random pipelines of up to 4 operators (nested), single thread; not exhaustive")
c("C02", MB + "disposal at random points, lockstep comparison with a reference model", "random pipelines and histories, single thread; disposal from outside and inside callbacks; not exhaustive")
c("C03", MB + "live-instance accounting and release counts", "random pipelines and histories, single thread, counted values/callables/observers, ASan")
c("C04", MB + "fault injection at a random call of each user callback, compared with a reference model", "random pipelines with throwing callbacks, single thread; not exhaustive")
c("C05", MB + "lockstep comparison with a reference model", "chains of up to 5 operators, histories of up to 16 events")
c("C06", MB + "lockstep comparison with a reference model", "random windows/groups with selective unsubscription of sub-streams")
c("C07", MB + "lockstep comparison with a reference model", "random nested inner observables, synchronous and driven")
c("C08", MB + "lockstep comparison with a reference model", "two to four inputs, shared inputs, random interleavings")
c("C09", MB + "lockstep comparison with a reference model", "scripted attempts, all counts 0..3 and unbounded")
c("C12", "property-based testing: stateful histories over subjects with operations issued from inside callbacks, compared with a reference model", "random histories of up to 14 operations (crowds of up to 700 subscribers), single thread, virtual clock")
c("C13", "property-based testing: stateful histories over connectable observables, compared with a reference model", "random histories of up to 20 operations, single thread")
c("C10", "property-based testing: generated sources, schedulers, storage policies and subscription histories, compared with reference sources on reference schedulers under a virtual clock", "source expressions of depth up to 3, up to 5 subscribers, 8 operations; single thread")
c("C14", "property-based testing: stateful histories over disposables and their handles, including operations issued from disposal callbacks, compared with a naive reference implementation", "histories of up to 30 operations over 6 handles, capacities 0, 1, 2, 4 and dynamic; single thread")
SIM = "property-based testing: generated programs run by real threads under generated schedules (controlled scheduler, virtual time), "
c("C11", "property-based testing: generated chains of time operators, schedulers and timelines, lockstep comparison with reference operators on reference schedulers under virtual clocks", "chains of up to 3 time operators, histories of up to 20 events and clock advances; single thread")
c("C18", SIM + "with invariants over the log of task runs, plus deadlock, race, use-after-free and leak detection", "up to 3 scheduling threads, about 16 tasks, up to 100 preemptions at synchronisation operations; sequentially consistent interleavings")
c("C21", SIM + "with interval rules over the history of operations, plus deadlock, race, use-after-free and leak detection", "2 to 4 threads, up to 5 operations each, trees of up to 4 containers; sequentially consistent interleavings")
c("C19", SIM + "with a sequential model searched for a linearization of the events, plus callback exclusion, deadlock, race, use-after-free and leak detection", "trees of up to two levels of multi-source operators, up to 6 sources of up to 5 events; sequentially consistent interleavings")
c("C20", SIM + "with rules over the history of emissions, subscriptions and deliveries (one order for all observers, no loss, no repetition), plus race, deadlock and leak detection", "up to 3 emitters (serialized subjects) and concurrent subscribers/disposers; known junction of replay/behavior subscribe recorded")
c("C22", SIM + "with disposal by other threads at generated moments: nothing starts after it returned, sources released once, nothing leaks", "operator trees of C19 and up to 2 disposing threads; sequentially consistent interleavings")
c("C23", SIM + "with rules for content, order, threads and exact virtual times of delivery, plus callback exclusion, deadlock, race, use-after-free and leak detection", "chains of up to two operators that move events to schedulers, sources of up to 5 values; sequentially consistent interleavings")
c("C24", SIM + "blocking subscriptions: return only after the end or the disposal, no lost wake-up", "sources on other threads, up to one hop, take before and after; sequentially consistent interleavings")
c("C25", SIM + "with rules over the history of connections, subscriptions and deliveries (one connection while someone listens, none left when nobody does, everyone gets what comes while subscribed), plus race, deadlock and leak detection", "connectables/ref_count/share over a source driven from other threads, up to 4 threads subscribing, disposing and connecting; sequentially consistent interleavings")
c("C26", SIM + "asio strand over an io_context polled by several threads, with invariants over the log of task runs, plus deadlock, race, use-after-free and leak detection", "up to 3 scheduling threads and 3 polling threads, about 16 tasks; lateness and order among timers decided with one poller; sequentially consistent interleavings")
c("C27", "property-based testing: generated histories of scheduled tasks and signal emissions on a real Qt event loop under a virtual clock, compared with a reference model", "histories of up to about 20 operations, one other thread, delays below 2 s with 2 ms tolerance (Qt coarse timers)")
c("C28", SIM + "the gRPC reactors over a simulated transport that delivers reactions as gRPC may and rejects operations gRPC forbids, with rules over the history of messages and statuses", "up to 2 pushing threads per side, 3 transport threads, about 20 messages, peers RPP or scripted; the transport is a model of gRPC; sequentially consistent interleavings")
c("C15", "property-based testing: generated chains (as C++ types) and dynamic pipelines with value-stealing callables and subscribers over values that know when they were moved from, compared with a reference model", "56 chains of generated types per seed (400 thorough) and random dynamic pipelines, shared subjects, two subscribers; single thread")
c("C16", "property-based testing: chains of generated static types (erasure, variants, regrouping, wrapping at random places) compared with the reference model all erased forms are compared with", "72 chains of generated types per seed (480 thorough), events, disposal, faults, subjects; single thread")
c("C17", "property-based testing: generated programs of tasks run on the real schedulers under a virtual clock, compared with reference schedulers", "task trees of up to about 20 tasks with reschedules, waits, disposal (also while the scheduler sleeps) and exceptions; single thread")
c("C29", "property-based testing: generated pipelines are fed the same generated round of events over and over; the number of allocations the library keeps must not grow with the rounds unless the reference model has to remember more as well (metamorphic relation over the number of repetitions)", "60 rounds per case, up to 3 operators; zip and merged unbounded backlogs the model keeps too are allowed to grow; allocation counts, not bytes; single thread")
c("C30", SIM + "against a sequential model of the attempts (exact sequence, order and number of subscriptions, which one is current, release), plus race, deadlock and leak detection", "trees of up to 4 scripted sources, 1..3 attempts each, up to two levels of operators; sequentially consistent interleavings")
exec(open(V + "/tools/manifest_more.py").read()) if os.path.exists(V + "/tools/manifest_more.py") else None
na = {}
m = dict(version=1, setup_cmd="true", checks=[C[p["id"]] for p in props if p["id"] in C],
         not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "no check built yet")) for p in props if p["id"] not in C])
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
