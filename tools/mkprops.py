#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after a change)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from groups import PROPS

P = []


def p(id, title, st, over, q, why, files, mech, obs=(), state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=None)))


CB = "circuitbreaker/circuitbreaker.go"
SE = "concurrent/sema.go"
EV = "event/bus.go"
p("C01", "Breaker: every call ends in exactly one of its three outcomes",
  "A call on a circuit breaker either runs its task exactly once or calls onOpen exactly once, never both and never neither. If the task ran, onError is called exactly once, with the very error the task returned, if and only if the task returned one, and a panic of the task reaches the caller; the never-open breaker always runs the task.",
  "schedules inputs", "all interleavings of concurrent and nested calls, all task outcomes (success, error, panic, ended goroutine), thresholds, timeouts and clock movements",
  "Tests run single calls from one goroutine with a fixed clock; which outcome a call gets depends on the interleaving with other calls.", CB,
  [("state decision followed by task and callbacks", CB + " Do"), ("neverOpen.Do", CB)], ["Do's callbacks and return"])
p("C02", "Breaker: opens at the threshold, half-opens only after the reset timeout",
  "The breaker's history is explained by one state: it is closed while fewer than failureThreshold tasks have failed since the last success, otherwise open (no task runs) until strictly more than resetTimeout has passed since the latest failure, after which tasks are let through again: a success closes it and forgets all failures, a failure keeps it open for another full resetTimeout. Every failure counts exactly once and before its onError is called, also when many callers fail at the same time.",
  "schedules histories inputs", "all interleavings of concurrent callers, all sequences of outcomes and elapsed times including the exact boundary instants, slow threads, and jumps of the wall clock",
  "Tests set the clock by hand and use one goroutine; lost or doubled failure counts and wrong boundary decisions need particular interleavings and instants.", CB,
  [("failures and lastFailureTs under the lock", CB + " recordFailure, reset, state")], ["which of task and onOpen ran, and when"],
  [("failures", "failures since the last success", CB), ("lastFailureTs", "time of the latest failure", CB)])
p("C03", "Breaker: one caller's task never holds up or corrupts the others",
  "However long a task or callback takes, and even if it panics, ends its goroutine or calls the same breaker again, every other call on the breaker proceeds without waiting for it, and the breaker keeps working afterwards.",
  "schedules", "all interleavings of hanging, panicking, goroutine-ending and re-entrant tasks and callbacks with other calls",
  "Tests never call the breaker while another task is running.", CB, [("locks are not held while task or callbacks run", CB + " Do")], ["duration of other calls"])
p("C04", "Semaphore: never more holders than permits",
  "The history of Acquire, TryAcquire and Release calls on either semaphore is linearizable with respect to a counter of permits: at most `permits` permits are held at any time, all of them can be held at once, and every released permit can be acquired again exactly once. Releasing a semaphore of which nothing is held neither blocks nor creates a permit.",
  "schedules histories", "all interleavings of Acquire, TryAcquire and Release of any number of goroutines and any number of permits, including surplus releases",
  "Tests use a handful of goroutines and real sleeps; over-admission needs a particular interleaving.", SE,
  [("buffered channel as counter", SE + " ChanSemaphore"), ("mutex and condition variable around a counter", SE + " LockSemaphore")], ["enter/leave of critical sections, results of TryAcquire"])
p("C05", "Semaphore: nobody sleeps while a permit is free",
  "A goroutine blocked in Acquire proceeds as soon as a permit is available for it: with every holder releasing in the end, every Acquire returns, no wake-up is lost, and Release and TryAcquire never block.",
  "schedules", "all interleavings of waiters and releasers, any number of both",
  "A lost wake-up needs a particular interleaving of wait and signal and would show up in a test as a rare hang at most.", SE,
  [("condition signal on release", SE + " LockSemaphore.Release"), ("channel receive on release", SE + " ChanSemaphore.Release")], ["returns of Acquire"])
p("C06", "Event bus: Block receivers get every event once, in the bus's order",
  "Every event whose send completed while a Block receiver is registered reaches that receiver exactly once; all receivers see the events in one common order, which respects the order of sends. A receiver that joins late or is closed early gets a contiguous part of that order: everything sent after its registration up to its closing, nothing twice, nothing invented.",
  "schedules histories configurations", "all interleavings of senders, dispatcher, slow consumers, registrations and closings; all buffer sizes of bus and receivers including unbuffered",
  "Tests send a few events to receivers that exist from the start and sleep in between.", EV,
  [("single dispatcher goroutine ranging over the bus channel", EV + " doDispatch"), ("blocking send", EV + " onEvent"), ("receiver map under RW lock", EV)], ["events received per receiver"])
p("C07", "Event bus: Drop receivers lose events only when full and never block anyone",
  "A Drop receiver that is full loses the events dispatched at that time and nothing else: it gets a subsequence of the bus's order, keeps the oldest events up to its capacity if it is not drained, gets every event while it has room or is waiting for one, and never delays senders or other receivers.",
  "schedules histories configurations", "all interleavings of senders, dispatcher and consumers that drain fast, slowly or never; all buffer sizes including unbuffered",
  "Tests look at one small burst; whether an event may be dropped depends on the interleaving of dispatcher and consumer.", EV,
  [("non-blocking send", EV + " onEvent")], ["events received per receiver, time spent in sends"])
p("C08", "Event bus: receivers and bus can be closed at any moment",
  "Closing a receiver closes its channel (after what it already holds) and only its own, whoever closes it, however often, whether the bus has closed it already, another receiver has taken its name, events are in flight or the dispatcher is blocked on it; the other receivers keep getting events. Closing the bus ends dispatching and closes every registered receiver, and nothing panics, deadlocks or is left running.",
  "schedules histories", "all interleavings of registering, closing (repeated, concurrent, by the consumer itself, with duplicate names), sending and closing the bus",
  "Tests close one receiver once in a quiet moment; panics such as sending on a closed channel need a close between two steps of the dispatcher.", EV,
  [("close and deregister under the lock that excludes the dispatcher", EV + " deregisterRecv, Close")], ["state of every receiver's channel, panics, goroutines left"])
p("C09", "Event bus: Drain and CollectTimeout return what was delivered, in time",
  "Drain returns at once with everything the receiver holds at that time, in order. CollectTimeout returns exactly at its timeout, or at once when the receiver is closed, with everything delivered until then, in order; between them no event is lost, duplicated or made up.",
  "schedules histories inputs", "all interleavings of deliveries, closings, drains and collections, timeouts including zero",
  "Tests use real sleeps and one producer; the moments of timeout and closing are never hit exactly.", EV,
  [("select over channel and timer", EV + " CollectTimeout"), ("non-blocking receive loop", EV + " Drain")], ["returned slices, duration"])
FD, FR, TK, TM = "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go", "schedule/task.go", "schedule/task_manager.go"
p("C10", "Fixed-delay task: runs never overlap and are one interval apart",
  "A fixed-delay task runs its job at once when started and then again exactly when the interval has elapsed after the previous run ended, for as long as it is not stopped, whatever the job returns and however long it runs; two runs never overlap and the next never begins before the interval is over.",
  "schedules histories configurations", "all interleavings of the task's goroutines and timers, all job durations (also beyond the timeout), intervals, timeouts and slow threads",
  "Tests watch a few runs with millisecond sleeps.", FD + " " + TK,
  [("next run is queued by a timer set after the run", FD + " appendJobQueueFuture"), ("runJob waits for the job", TK + " runJob")], ["begin and end of every run"])
p("C11", "Fixed-rate task: one run per interval, however long jobs take",
  "A fixed-rate task begins a run when started and at every multiple of the interval after that until it is stopped, also while earlier runs are still going on; it never begins more runs than intervals have passed, and a run never begins before its time.",
  "schedules histories configurations", "all interleavings of ticker, provider and consumer goroutines, all job durations, intervals, timeouts and slow threads",
  "Tests watch a few runs with millisecond sleeps and short jobs.", FR + " " + TK,
  [("ticker-driven queue", FR + " startProviding"), ("each run on its own goroutine", FR + " startConsuming")], ["begin of every run"])
p("C12", "Tasks: a run is cancelled at its timeout or at stop, and not before",
  "The cancel channel given to a job is closed exactly when the timeout has elapsed since the run began or when the task is stopped, whichever comes first, and never earlier; each run has its own, and a run's cancellation or error never affects other runs.",
  "schedules histories configurations", "all interleavings of jobs, timers and stop for both kinds of task, all durations and timeouts, overlapping runs",
  "Tests check one timeout and one stop with generous sleeps.", TK,
  [("context with timeout per run, cancelled on stop", TK + " runJob")], ["close of the cancel channel of every run"])
p("C13", "Tasks: Start and Stop each succeed exactly once, and stop means stop",
  "A task goes from new to started to stopped and nowhere else: of any number of concurrent calls exactly one Start and, after it, exactly one Stop succeed, all others return an error (or panic, for MustStart and MustStop) and change nothing. After a successful Stop no run begins at any later instant, running jobs are told to cancel, neither call waits for a job, and once the jobs have returned none of the task's goroutines is left.",
  "schedules histories", "all interleavings of Start, Stop, MustStart and MustStop calls with timers and jobs at every point of the task's life",
  "Tests call Start and Stop in sequence; a run slipping through after Stop or a leaked goroutine needs a stop at a particular moment.", TK + " " + FD + " " + FR,
  [("status under lock, stop channel", TK + " markStart, markStopSendSignal")], ["results of Start/Stop, begin of runs, goroutines left"])
p("C14", "Task manager: one running task per name",
  "The task manager's registry is linearizable: Register starts and keeps a task if and only if its name is free, Unregister and UnregisterAll stop exactly the tasks registered at that point, exactly once, and free their names. A task that could not be started is not kept.",
  "schedules histories", "all interleavings of Register, Unregister and UnregisterAll with equal and different names, including tasks that were started before",
  "Tests register and unregister from one goroutine.", TM, [("map under a mutex", TM)], ["Start and Stop calls reaching the tasks, errors returned"])
p("C15", "Fixed window: at most capacity admissions per window, and no fewer",
  "Time is divided into consecutive windows (k*windowSize, (k+1)*windowSize] of the clock; in each the fixed-window limiter admits the first `capacity` requests and refuses all others, however many goroutines ask and however long it was idle.",
  "schedules histories configurations", "all interleavings of concurrent requests, all instants including the exact boundaries, long idle times, all capacities and window sizes",
  "Tests use one goroutine or a few million requests in one window; boundary instants and races at the window change are not reached.", "ratelimiter/fixedwindow.go",
  [("count and end of window under a mutex", "ratelimiter/fixedwindow.go Acquire, reset")], ["results of Acquire"])
p("C16", "Sliding window: at most capacity admissions per window, also when reconfigured",
  "The sliding-window limiter admits a request if and only if fewer than `capacity` of the admissions it remembers (the latest `capacity` ones) are at most windowSize old, so never more than `capacity` in any span of windowSize; capacity zero (or negative) admits everything. UpdateConfig takes effect at once, keeping the latest admissions up to the new capacity, and the accessors report one configuration or the other.",
  "schedules histories configurations", "all interleavings of requests and reconfigurations, all instants including the exact boundaries, shrinking, growing and switching off",
  "Tests use one goroutine and few configurations.", "ratelimiter/slidingwindow.go",
  [("list of admission times under a lock", "ratelimiter/slidingwindow.go Acquire, UpdateConfig")], ["results of Acquire, Capacity, WindowSize"])
p("C17", "Token bucket: never more than the burst plus what was issued",
  "A token bucket admits at most `capacity` requests at one instant, and in any span of T at most capacity + issueRate * (whole seconds in T + 1): tokens are issued once per elapsed second to all goroutines together, never beyond the capacity and not for the time the bucket was full.",
  "schedules histories configurations", "all interleavings of concurrent requests on both implementations, all idle times, capacities and rates, slow threads",
  "Tests use one goroutine with a fixed clock or count totals over a few real seconds; double issue needs two goroutines refilling at the same moment.", "ratelimiter/tokenbucket.go",
  [("issue and take under a mutex", "ratelimiter/tokenbucket.go SyncTokenBucket"), ("compare-and-swap on time and tokens", "ratelimiter/tokenbucket.go AtomicTokenBucket")], ["results of Acquire"])
p("C18", "Token bucket: refills, whatever the clock does",
  "A full bucket admits `capacity` requests at once, and a request is refused only if at least as many as the smaller of capacity and issueRate were admitted in the second before it, at any pace of requests and with any number of goroutines asking. A step of the wall clock, back or forward by any amount, suspends this at most until one second after the next request.",
  "schedules fault_sequences configurations", "all interleavings of concurrent requests and all jumps of the wall clock",
  "No test moves the clock backwards.", "ratelimiter/tokenbucket.go", [("issueIfNecessary", "ratelimiter/tokenbucket.go")], ["results of Acquire"])
RL = "ratelimiter/ttl_ratelimiter_redis.go"
p("C19", "Redis limiter: blocks for the timeout once the rate is exceeded",
  "Over any number of clients sharing one Redis, requests for a key pass while fewer than `capacity` of the latest passed ones lie within the window; the first that exceeds it is told blocked and triggered with its own message and the timeout as ttl, and until the timeout has passed every request on that block key, and IsBlocked, is told blocked, not triggered, with a positive remaining ttl and the first message; then requests are judged afresh. Unset parameters never block, different keys do not affect each other, several keys may share a block key, and with a hash tag all calls agree on the same keys.",
  "schedules histories inputs configurations", "all interleavings of concurrent requests of several clients, all instants within and around window and timeout, all parameters, keys and messages",
  "The tests need a real Redis, are skipped without one, and use one client with sleeps.", RL + " ratelimiter/ttl_ratelimiter.go",
  [("one atomic script per decision", RL + " script1, script2")], ["Results returned to clients"])
p("C20", "Redis limiter: fails open and recovers by itself",
  "While Redis cannot be reached or answers with an error, every call returns within the client's time limits with an unblocked result and without panic; once Redis is back, also restarted with its scripts or all its data lost, the limiter limits again at once without the application doing anything. A failing call of one client never changes the outcome of another's.",
  "fault_sequences crash_points schedules", "all sequences of connection losses before and after execution, lost replies, delays beyond the timeout, server restarts with and without data, and lost script caches",
  "No test injects a fault.", RL, [("errors give an unblocked result", RL + " ShouldBlock2Context, IsBlockedContext"), ("script sent again when unknown", RL + " runScript")], ["Results returned to clients, time per call"])
ST, PE, LO = "confstore/store.go", "confstore/persister.go", "confstore/loader.go"
p("C21", "Config store: accepted updates are persisted, rejected ones are not",
  "When Update or BatchUpdate returns without an error for a key, the value is in the persister (if that did not fail), entry by entry and the last one winning; a rejected or unregistered or empty key's value is never persisted, UpdateNoPersist never writes to it, and ResetKey and DeregisterKey remove the key from it. Other keys are never touched.",
  "histories fault_sequences crash_points schedules", "all sequences and interleavings of operations with valid and invalid values, with persister failures and a crash after any step",
  "Tests use a persister that does nothing.", ST + " " + PE, [("Save, BatchSave, Delete after the in-memory change", ST)], ["content of the persister"])
p("C22", "Config store: reads give the latest accepted value, typed and as text",
  "The store is linearizable with respect to a map of registered keys: a read gives the latest accepted value, else the default, and nothing for a key that is not registered; typed and string reads of a key show values that were really set, converted by the key's processor. Invalid values change nothing, errors name the offending entry, duplicate registrations are refused, a deregistered key leaves nothing behind, the batch reads return the existing keys in the order asked, and the Must reads panic exactly when the key is missing.",
  "schedules histories inputs", "all interleavings of register, update, batch update, reset, deregister and reads by several goroutines",
  "Tests call one operation at a time.", ST, [("processor and value maps under two RW locks", ST)], ["returned values and errors"])
p("C23", "Config store: loads are rate-limited by the policy, and never stale beyond it",
  "With a load policy of a minimum interval, two successful loads of the persister never begin closer together than that interval, however many goroutines read, while a read after the interval sees what was in the persister; a failed load does not count and the next read tries again. The simple policy loads at every read, the no-op policy never.",
  "schedules histories fault_sequences", "all interleavings of readers, all elapsed times around the interval, persister failures and slow loads",
  "Tests check one interval from one goroutine.", LO + " " + ST, [("last load time under a mutex", LO + " defaultLoadPolicy.DoLoad")], ["Load calls reaching the persister, values read"])
p("C24", "Config store: memory and persisted copy agree; a restart finds everything",
  "When no call is running and the persister did not fail, the values in memory are those in the persister, whatever updates, resets, deregistrations and loads ran concurrently. After a crash at any point a new store on the same persister reads, for every key, the last value whose update had returned or one whose update was in progress, and other stores on the same persister read it after their next load.",
  "schedules crash_points histories fault_sequences", "all interleavings of concurrent changes and loads, crashes at every step, lost connections to Redis",
  "Tests have no persister, no concurrency and no restart.", ST + " " + PE + " " + LO,
  [("changes exclude each other and loads", ST + " persistLock"), ("hash of all keys in Redis", PE)], ["values read before and after a restart, content of the persister"])
p("C25", "Shared objects are free of data races",
  "Any exported operation of a breaker, semaphore, event bus, receiver, task, task manager, rate limiter or config store may be called from any number of goroutines at the same time without a data race inside the library.",
  "schedules", "all interleavings of any two operations on a shared object",
  "The race detector only sees the interleavings a test run happens to take, and the tests rarely share an object.",
  " ".join([CB, SE, EV, FD, FR, TK, TM, "ratelimiter/fixedwindow.go", "ratelimiter/slidingwindow.go", "ratelimiter/tokenbucket.go", ST, LO]),
  [("locks, channels and atomics of each type", "all packages")], ["race detector over simulated happens-before"])
p("C26", "Tracing a Redis client never changes what the client does",
  "With the tracing hook installed every Redis command and pipeline is executed with the caller's context and gives the same result and error as without it, whatever happens to the connection and whether or not a span can be created. Every command or pipeline of a sampled trace produces exactly one exit span, child of the caller's span, naming its commands and the peer, lasting from before it is sent until after its answer, marked as error if and only if a command failed (a nil answer counts), ended exactly once, and never mixed up between concurrent commands. Arguments and error texts are reported only when the options ask for them.",
  "schedules fault_sequences configurations", "all interleavings of concurrent commands and pipelines sharing a hook, connection losses, error replies, hook options, sampled and unsampled traces",
  "There are no tests for it.", "skywalking/redis/hook.go", [("span kept in the command's context", "skywalking/redis/hook.go")], ["results of commands, spans reported"])
p("C27", "Tracing HTTP requests never changes the requests",
  "The tracing middleware leaves the handlers' order, errors, panics and responses as they are without it, and reports one entry span per traced request, continuing the trace of the caller's sw8 header, ended once after the handlers, with method, URL and final status, marked as error if and only if a handler returned an error or the status is 400 or more; a request whose trace header cannot be read is served untraced. The client helper changes nothing in a request but its sw8 headers, which are one each and lead to its exit span, a child of the request's span, and ends each span once with the outcome. Error texts and bodies are reported only when the options ask for them. Spans of concurrent requests are never mixed up, and without a tracer both do nothing. A tracer of the factory reports as namespace::service and the configured instance to the configured server; without a server the factory's reporter does nothing.",
  "schedules fault_sequences configurations", "all interleavings of concurrent requests through shared middleware and helper, handler outcomes, options, and tracers that fail or do not sample",
  "There are no tests for it.", "skywalking/fasthttp-routing/middleware.go skywalking/fasthttp/client_span.go skywalking/factory.go",
  [("span around the handler chain", "skywalking/fasthttp-routing/middleware.go"), ("CreateSpan, EndSpan, EndSpanError", "skywalking/fasthttp/client_span.go"), ("reporter and tracer factory", "skywalking/factory.go")], ["responses, errors, spans reported"])
p("C28", "Configuration sources: flags over environment over file over defaults",
  "Loading a configuration gives every supported exported field, in any nesting of structs, embedded structs and pointers, the value of its command line flag if one is given, else of its environment variable if that is set (also to the empty string), else of the file if its flag names one, else the default it had; a null in the file gives nothing, and no pointer on the way is nil afterwards. Flag, variable and file names are those of the documented convention. If a given source cannot be read, is cut off, malformed, or has a value that is not of the field's type, the process ends with a non-zero status instead of running with a partly loaded configuration; the file is taken as it was at one moment even if it is replaced meanwhile.",
  "inputs configurations fault_sequences", "all struct shapes, all combinations of sources and values, files that are missing, unreadable, torn, malformed or replaced while being loaded",
  "Tests sample a few structs and sources one by one; none has a failing or changing file.", "conf/conf.go conf/env.go conf/flag.go conf/yaml.go conf/reflect.go conf/string.go",
  [("load order and exit", "conf/conf.go"), ("name conversion", "conf/string.go"), ("field visitor", "conf/reflect.go")], ["loaded values, process exit"])
p("C34", "Profiling endpoints serve exactly those who know the credentials",
  "Behind the gin filter or the fasthttp-routing handler a profiling endpoint serves its data to a request if and only if user name and password are both configured and the request's basic authentication carries exactly these, whatever other clients of the same or another application in the process send at the same time; a refused request gets status 401 with a challenge if an account is configured, and never any data. Where both are configured, the process is profiled with the configured block rate and mutex fraction.",
  "schedules inputs configurations", "all interleavings of clients with all kinds of right, wrong, malformed and missing credentials",
  "There are no tests for it.", "confs/pprof.go", [("NewGinPprofBasicAuthFilter, NewFasthttpRoutingPprofHandler", "confs/pprof.go")], ["responses"])
p("C35", "A Redis client made from a configuration uses exactly what is configured",
  "NewRedisClient returns only after the server has answered, and ends the process if it cannot be reached or refuses the password. All connections of the client, also those made later after failures, go to the configured host and port, are authenticated with the configured password and select the configured database before any command; there are never more open than the configured pool size nor (when all is well) fewer than the configured minimum; what the customizer sets wins. The client works again by itself when an outage is over.",
  "schedules fault_sequences configurations", "all configurations, interleavings of commands, refused or lost connections, error replies, restarts of the server with or without its data, partitions",
  "Tests compare an options struct; no test connects.", "confs/redis.go", [("NewRedisClient, prepareRedisNativeConfig", "confs/redis.go")], ["connections, AUTH and SELECT at the server, results of commands"])
p("C36", "SQL connection pools made from a configuration behave exactly as configured",
  "For MySQL, PostgreSQL and Oracle, with and without tracing: the constructor returns only after the server has answered, and ends the process if the database cannot be used. Every connection of the pool, also those made later after failures, goes to the configured host and port with the configured user, password, database (service, SID, servers) and parameters, whatever characters they contain (an entry of Params that is not name=value is left out and spoils no other); what the customizer sets is used (for PostgreSQL and Oracle unless Params set the same option). Never more than MaxOpenConns connections are open (0: no limit), at most MaxIdleConns are kept idle (0: none) and those kept are used again, none is used for longer than ConnMaxLifetime (0: for ever). Connecting, reading and writing never wait longer than configured, and do wait as long as configured. MySQL times are read as ParseTime and Loc say. The pool works again by itself when an outage is over.",
  "schedules fault_sequences configurations", "all configurations and customizers, interleavings of queries, refused, hanging or lost connections, lost, torn or late answers, restarts of the server, partitions",
  "Tests compare driver configurations and DSN strings of a few values; no test connects.", "confs/mysql.go confs/postgresql.go confs/oracle.go", [("NewMySqlDb, buildMysqlConfig", "confs/mysql.go"), ("NewPostgresqlDb, buildPgDsn", "confs/postgresql.go"), ("NewOracleDb", "confs/oracle.go")], ["connections, logins, session parameters and queries at the server, results of queries"])
p("C37", "HTTP clients keep the configured limits and trust only whom they should",
  "The client made by NewFastHttpClient never has more than MaxConnsPerHost connections to a host; a request that finds them all busy waits up to MaxConnWaitTimeout for one (0: not at all) and then fails. An idle connection is used again, until it has been idle for MaxIdleConnDuration; a connection older than MaxConnDuration carries at most one more request. Waiting for an answer ends at ReadTimeout, sending at WriteTimeout, and not earlier (0: no limit). A request is sent only to a server whose certificate is for its name and was signed by: a root of the system (mode OS), one of the configured certificates and no others (CUSTOM); anyone (INSECURE). A configured client certificate is presented with its chain. A certificate, key or trust file that cannot be used stops construction. What the customizer sets wins. Every answer belongs to its request, and the client works again by itself when an outage is over.",
  "schedules fault_sequences configurations", "all configurations, interleavings of requests, refused or lost connections, slow servers, slow readers, restarts, partitions, certificates and trust files",
  "Tests compare the fields of one client; no test connects or makes a TLS configuration.", "confs/fasthttpclient.go", [("NewFastHttpClient, appendCertPool", "confs/fasthttpclient.go")], ["connections and requests at the server, TLS handshakes, results and times of requests"])
p("C38", "Elasticsearch clients reach the configured nodes within the configured limits",
  "NewEsClient returns a client only after one of the configured nodes has answered a ping without an error; otherwise it panics (and does not when all nodes are healthy, or when one of several is down or answers 502 to 504). Requests go to the configured addresses (with their path), to all of them, and to nobody else, with the configured user and password, or none. There are never more than MaxConnsPerHost connections to a node (0: no limit); at most MaxIdleConnsPerHost (0: 2) are kept per node when nothing is under way, and that many are used again, whatever the number of nodes. An answer that does not begin within 60 s is given up, and not earlier; what begins in time may take longer to end. What the customizer sets wins. Every answer belongs to its request, an acknowledged document is the one that is read, and the client works again by itself when an outage is over.",
  "schedules fault_sequences configurations", "all configurations and customizers, interleavings of requests, refused, lost or hanging connections, nodes that are slow, down, restarted, partitioned or answer errors",
  "The only test of it is skipped without a running Elasticsearch.", "confs/es.go", [("NewEsClient", "confs/es.go")], ["connections and requests at the nodes, results and times of requests"])
# not simulation targets
p("C30", "Value processors accept exactly what they can convert",
  "Each built-in value processor accepts a string if and only if Convert turns it into a value of its type.", "inputs", "all strings", "Tests sample strings.", "confstore/procs.go", [("Validate and Convert", "confstore/procs.go")])
p("C31", "Configuration dumps never show passwords", "The text form of every database, cache and search configuration hides the password.", "inputs", "all passwords", "Tests sample values.", "confs/mysql.go confs/postgresql.go confs/oracle.go confs/redis.go confs/es.go", [("String methods", "confs")])
p("C33", "RSA key helpers round-trip", "A key written as PEM parses back to the same key, and malformed input gives an error.", "inputs", "all keys and byte strings", "Tests sample keys.", "util/rsa/util.go", [("PEM encoding and parsing", "util/rsa/util.go")])

NA = {
    "C30": "A pure function of a string: nothing for a simulator to decide. (That the store applies the processors correctly under concurrency is C22.)",
    "C31": "A pure function of a configuration value: nothing for a simulator to decide.",
    "C33": "A pure function of key material (randomness only enters through crypto/rsa): nothing for a simulator to decide.",
}
TECH = "deterministic simulation with fault injection (seeded schedule and fault search)"
NOTE = {
    "C25": "Sampled schedules of the real code under the Go race detector with simulated happens-before edges; exact replay. Not exhaustive. Trusts the race detector and the simulator's synchronisation models.",
}
DEF = "Seeded random and PCT search over schedules, times and faults of the real code in one process; every violation replays exactly. A clean run is evidence, not proof. Trusts the source transformer and the simulator's models of Go's synchronisation, timers and (where listed) Redis."


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                               evidence_file="evidence/%s.json" % i, technique=TECH, level="exploration", level_note=NOTE.get(i, DEF)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "The check is not built yet.")))
    m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none (no hooks are added to /repo; the build rewrites a copy of the sources through `go build -overlay`)", enable="check.py transforms the sources of /repo's working tree into an overlay at build time", source_commits=[]),
             checks=checks, not_applicable=na, notes="Replay a violation with: python3 check.py <ID> --replay <file> [-v]. Determinism self-test: python3 check.py --selftest [IDs]. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
