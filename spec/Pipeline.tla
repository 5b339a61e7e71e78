------------------------------ MODULE Pipeline -------------------------------
(* The indexing pipeline: the caller of Add and Close, the workers that turn
   documents into posts, and one server per shard, connected by rendezvous
   channels.  A worker hands over the posts of document d only when d-1 has been
   handed over, and keeps the others out while it does (Serial); each shard has
   one channel, used for the posts and for the acknowledgement.

   Checked for all interleavings: whatever the order in which the workers finish,
   every shard receives the documents in the order of addition, each once
   (InOrder, Complete); the session ends (Ends), under fairness of each
   goroutine.  The variants show what each part of the design is for: Wake =
   "one" (one waiter is woken instead of all), Ordered = FALSE (no waiting for
   d-1) and Acked = FALSE (no acknowledgement) each violate something.  The
   mutual exclusion during the hand-over follows from the order: Serial = FALSE
   changes nothing as long as Ordered.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NDocs, NWorkers, NShards, First, Serial, Wake, Ordered, Acked
Docs == First..(First + NDocs - 1)
Workers == 1..NWorkers
Shards == 1..NShards

VARIABLES
    next,       \* next document to be added; then the number of shutdowns sent
    pc,         \* worker -> idle | work | ready | asleep | send | end
    doc,        \* worker -> its document
    mono,       \* last document handed over
    holder,     \* the worker in the hand-over, 0: nobody
    snd,        \* <<worker, shard>> -> no | send | ack | done
    srv,        \* shard -> recv | busy | ack | end
    got,        \* shard -> document being processed (0: an acknowledgement meant for a worker was taken)
    list,       \* shard -> documents in the order in which they were stored
    phase       \* add | shut | flush | closed
vars == <<next, pc, doc, mono, holder, snd, srv, got, list, phase>>

Init == /\ next = First /\ pc = [w \in Workers |-> "idle"] /\ doc = [w \in Workers |-> 0]
        /\ mono = First - 1 /\ holder = 0
        /\ snd = [x \in Workers \X Shards |-> "no"]
        /\ srv = [s \in Shards |-> "recv"] /\ got = [s \in Shards |-> 0]
        /\ list = [s \in Shards |-> <<>>] /\ phase = "add"

(* Add: the caller meets an idle worker                                       *)
Add(w) == /\ phase = "add" /\ next \in Docs /\ pc[w] = "idle"
          /\ doc' = [doc EXCEPT ![w] = next] /\ next' = next + 1
          /\ pc' = [pc EXCEPT ![w] = "work"]
          /\ UNCHANGED <<mono, holder, snd, srv, got, list, phase>>
(* Close: one shutdown per worker                                             *)
BeginClose == /\ phase = "add" /\ next = First + NDocs
              /\ phase' = "shut" /\ next' = 0
              /\ UNCHANGED <<pc, doc, mono, holder, snd, srv, got, list>>
Shutdown(w) == /\ phase = "shut" /\ next < NWorkers /\ pc[w] = "idle"
               /\ pc' = [pc EXCEPT ![w] = "end"] /\ next' = next + 1
               /\ UNCHANGED <<doc, mono, holder, snd, srv, got, list, phase>>
(* the channels of the shards are closed: servers waiting for posts end       *)
CloseChannels == /\ phase = "shut" /\ next = NWorkers
                 /\ phase' = "flush"
                 /\ UNCHANGED <<next, pc, doc, mono, holder, snd, srv, got, list>>
ServerEnds(s) == /\ phase \in {"flush", "closed"} /\ srv[s] = "recv"
                 /\ srv' = [srv EXCEPT ![s] = "end"]
                 /\ UNCHANGED <<next, pc, doc, mono, holder, snd, got, list, phase>>
Flush == /\ phase = "flush"
         /\ phase' = "closed"
         /\ UNCHANGED <<next, pc, doc, mono, holder, snd, srv, got, list>>

(* a worker has tokenised its document                                        *)
Tokenised(w) == /\ pc[w] = "work" /\ pc' = [pc EXCEPT ![w] = "ready"]
                /\ UNCHANGED <<next, doc, mono, holder, snd, srv, got, list, phase>>
Turn(w) == ~Ordered \/ mono = doc[w] - 1
(* it enters the lock and either begins the hand-over or waits                *)
Enter(w) == /\ pc[w] = "ready" /\ (Serial => holder = 0)
            /\ IF Turn(w)
               THEN /\ pc' = [pc EXCEPT ![w] = "send"]
                    /\ holder' = IF Serial THEN w ELSE holder
                    /\ snd' = [x \in Workers \X Shards |-> IF x[1] = w THEN "send" ELSE snd[x]]
               ELSE pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED <<holder, snd>>
            /\ UNCHANGED <<next, doc, mono, srv, got, list, phase>>

(* rendezvous on the channel of shard s: a sender and a receiver              *)
Deliver(w, s) == /\ snd[<<w, s>>] = "send" /\ srv[s] = "recv"
                 /\ srv' = [srv EXCEPT ![s] = "busy"] /\ got' = [got EXCEPT ![s] = doc[w]]
                 /\ snd' = [snd EXCEPT ![<<w, s>>] = IF Acked THEN "ack" ELSE "done"]
                 /\ UNCHANGED <<next, pc, doc, mono, holder, list, phase>>
Store(s) == /\ srv[s] = "busy"
            /\ list' = [list EXCEPT ![s] = Append(@, got[s])]
            /\ srv' = [srv EXCEPT ![s] = IF Acked THEN "ack" ELSE "recv"]
            /\ UNCHANGED <<next, pc, doc, mono, holder, snd, got, phase>>
Ack(w, s) == /\ srv[s] = "ack" /\ snd[<<w, s>>] = "ack"
             /\ srv' = [srv EXCEPT ![s] = "recv"] /\ snd' = [snd EXCEPT ![<<w, s>>] = "done"]
             /\ UNCHANGED <<next, pc, doc, mono, holder, got, list, phase>>
(* with two workers in the hand-over one may receive what the other sends     *)
Stolen(v, w, s) == /\ v # w /\ snd[<<v, s>>] = "send" /\ snd[<<w, s>>] = "ack"
                   /\ snd' = [snd EXCEPT ![<<v, s>>] = "ack", ![<<w, s>>] = "done"]
                   /\ UNCHANGED <<next, pc, doc, mono, holder, srv, got, list, phase>>

(* hand-over complete                                                          *)
Asleep == {w \in Workers : pc[w] = "asleep"}
Leave(w) == /\ pc[w] = "send" /\ \A s \in Shards : snd[<<w, s>>] = "done"
            /\ mono' = IF Ordered THEN doc[w] ELSE mono
            /\ holder' = IF Serial THEN 0 ELSE holder
            /\ snd' = [x \in Workers \X Shards |-> IF x[1] = w THEN "no" ELSE snd[x]]
            /\ \E woken \in (IF Wake = "all" \/ Asleep = {} THEN {Asleep} ELSE {{v} : v \in Asleep}) :
                  pc' = [v \in Workers |-> IF v = w THEN "idle" ELSE IF v \in woken THEN "ready" ELSE pc[v]]
            /\ UNCHANGED <<next, doc, srv, got, list, phase>>

WorkerStep(w) == Tokenised(w) \/ Enter(w) \/ Leave(w)
ServerStep(s) == Store(s) \/ ServerEnds(s)
Meet(s) == \E w \in Workers : Deliver(w, s) \/ Ack(w, s) \/ \E v \in Workers : Stolen(v, w, s)
Caller == BeginClose \/ CloseChannels \/ Flush \/ \E w \in Workers : Add(w) \/ Shutdown(w)
Next == Caller \/ (\E w \in Workers : WorkerStep(w)) \/ (\E s \in Shards : ServerStep(s) \/ Meet(s))
Spec == Init /\ [][Next]_vars /\ WF_vars(Caller) /\ (\A w \in Workers : WF_vars(WorkerStep(w)))
             /\ (\A s \in Shards : WF_vars(ServerStep(s)) /\ WF_vars(Meet(s)))

InOrder == \A s \in Shards : \A i \in 1..Len(list[s]) : list[s][i] = First + i - 1
OneAtATime == Serial => Cardinality({w \in Workers : pc[w] = "send"}) <= 1
(* what the flush at the end sees                                             *)
Complete == phase \in {"flush", "closed"} => \A s \in Shards : Len(list[s]) = NDocs
NotBusyAtFlush == phase \in {"flush", "closed"} => \A s \in Shards : srv[s] \in {"recv", "end"}
Ends == <>(phase = "closed")
AllStop == <>(\A w \in Workers : pc[w] = "end") /\ <>(\A s \in Shards : srv[s] = "end")
=============================================================================
