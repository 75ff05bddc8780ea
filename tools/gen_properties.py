#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

DC = "directive/controller/"
prop("E01", "Equivalent live directives share one running instance",
 "Adding a directive that is equivalent to a live running one never starts a second instance: the caller gets the existing instance and a new reference on it. Only when the new directive supersedes the equivalent one is that old instance disposed and a new one started. An instance that has already been disposed is never handed out for a new request, and every new instance is listed before any handler is asked to resolve it.",
 ["histories", "schedules", "inputs"],
 "every sequence and interleaving of add / supersede / dispose over any set of directives",
 "The engine has no test of de-duplication at all; superseding while other goroutines add and dispose needs interleavings no unit test drives.",
 [DC+"controller.go", DC+"instance.go"],
 [("AddDirective equivalence scan", DC+"controller.go AddDirective"), ("instance construction", DC+"instance.go newDirectiveInstance")],
 ["directive.Controller.AddDirective", "directive.Controller.GetDirectives"])
prop("E02", "Directive lifetime follows its strong references",
 "A directive instance stays alive while at least one non-weak reference is held, and once the last one is released it is disposed: at once when no unreference delay is configured or when the directive asks for immediate disposal while it has no values, otherwise when the configured delay expires. Taking a new non-weak reference during the delay cancels the pending disposal; weak references never keep an instance alive or cancel it. Releasing the same reference again has no effect.",
 ["histories", "schedules"],
 "every order of add-reference, release, re-reference and timer expiry, with any mix of weak and strong references",
 "Existing tests release at most one reference; timer-versus-reference races and weak/strong mixes are unbounded.",
 [DC+"instance.go", DC+"reference.go"],
 [("reference list, weak refs first", DC+"instance.go addReferenceLocked/removeReferenceLocked"), ("dispose timer", DC+"instance.go handleUnreferencedLocked/handleReferencedLocked"), ("release once", DC+"reference.go Release")],
 ["directive.Reference.Release", "directive.Instance.CloseIfUnreferenced"])
prop("E03", "Disposal tears an instance down completely and notifies exactly once",
 "However an instance is disposed (last release, delay expiry, close, or superseding), its context is canceled, any pending disposal timer is stopped, it leaves the list of running directives, all its resolvers are stopped and their values withdrawn. Each dispose callback and each reference handler still attached is notified of the disposal exactly once, and released ones are not notified. A dispose callback or reference added after disposal is still told that the instance is gone.",
 ["histories", "schedules"],
 "every way and moment of disposal, with any number of resolvers, values, references and callbacks attached",
 "No test disposes an instance with resolvers, values and callbacks attached, let alone concurrently with additions.",
 [DC+"instance.go"],
 [("removeLocked", DC+"instance.go removeLocked"), ("AddDisposeCallback", DC+"instance.go AddDisposeCallback"), ("late reference", DC+"instance.go addReferenceLocked")],
 ["directive.Instance.AddDisposeCallback", "directive.ReferenceHandler.HandleInstanceDisposed"])
prop("E04", "Every reference is told of every value added and removed",
 "Every unreleased reference with a handler is notified of each value added to the directive, including all values that already existed when the reference was attached, and of each value that is removed, whether the resolver removed or cleared it or the resolver, its handler or the instance went away. Each notification carries the value that was added or removed, and each value gets an id that is unique within the instance and never zero.",
 ["histories", "schedules", "inputs"],
 "all sequences of reference attach/release and value add/remove by any number of resolvers",
 "The tests sample single-value, single-reference runs; missing a notification for one of several references or resolvers never shows.",
 [DC+"instance.go", DC+"resolver-handler.go"],
 [("addValueLocked fan-out", DC+"instance.go addValueLocked"), ("onValuesRemovedLocked fan-out", DC+"instance.go"), ("replay on attach", DC+"instance.go addReferenceLocked")],
 ["directive.ReferenceHandler.HandleValueAdded", "directive.ReferenceHandler.HandleValueRemoved"])
prop("E05", "Value caps are enforced and lifted",
 "With a hard cap configured, a value offered when the directive already has the maximum number of values is rejected. When the number of values reaches the maximum, resolvers that are still working and have produced no value are stopped and resolvers attached later are not started; when it drops below the maximum again, every resolver that was stopped or kept from starting because of the cap, or that failed, is started again. Without a configured maximum no value is rejected and no resolver is stopped.",
 ["histories", "schedules", "configurations"],
 "every cap configuration and every sequence of value additions/removals and resolver attachments around the cap",
 "No existing test sets a value cap.",
 [DC+"instance.go", DC+"resolver.go"],
 [("cap check", DC+"instance.go addValueLocked/checkFullLocked"), ("stop and restart", DC+"instance.go handleFullLocked/handleNotFullLocked/attachStartResolverLocked")],
 ["directive.ResolverHandler.AddValue"])
prop("E06", "Idle state is reported truthfully and on every change",
 "A directive is reported idle exactly when the initial round of handlers has been called and none of its resolvers is still working; a resolver is working from when it is started until it marks itself idle, returns, or is stopped (at the value cap also once it has produced a value). Every registered idle callback is called with the current state when it is registered and again on every change of state, with the current resolver errors, and is not called for changes after it was released.",
 ["histories", "schedules"],
 "every interleaving of resolver start/idle/exit, value caps and callback registration/release",
 "One test marks one resolver idle once; callbacks registered before the first handlers have run, multiple resolvers and releases are not exercised.",
 [DC+"instance.go", DC+"resolver.go", DC+"resolver-handler.go"],
 [("idle recomputation", DC+"instance.go handleIdleStateLocked/checkIdleLocked"), ("resolver idle flag", DC+"resolver.go setIdleLocked"), ("AddIdleCallback", DC+"instance.go")],
 ["directive.Instance.AddIdleCallback"])
prop("E07", "Engine callbacks run unlocked, in order, one at a time, panics contained",
 "The directive engine never calls a handler, reference handler, idle, dispose or removal callback while it holds its own lock, so a callback may call back into the engine. The notifications of one instance are delivered in the order they were raised and one at a time. A panic in a directive handler or in a notification is contained and does not prevent the remaining handlers and notifications from being called.",
 ["schedules", "histories", "fault_sequences"],
 "every callback from every entry point, including callbacks that re-enter the engine or panic",
 "A deadlock or reordering needs a callback that re-enters or two goroutines notifying at once; no test does either.",
 [DC+"instance.go", DC+"controller.go", DC+"resolver-handler.go"],
 [("callback queue", DC+"instance.go callCallbacksLocked"), ("handler call", DC+"instance.go callHandlerUnlocked")])
prop("E08", "Engine state is touched only under its lock, which is always released",
 "All mutable state of the directive engine (running directives, handlers, references, resolvers, values, callbacks and flags) is read and written only while the engine's lock is held. Every path through every entry point acquires the lock before touching it, never acquires it twice, and releases it before returning, also when it returns early.",
 ["schedules", "programs"],
 "every path of every exported operation, goroutine, timer and callback of the engine",
 "Lock misuse shows only under particular schedules; the race detector sees only the interleavings the tests happen to run.",
 [DC+"controller.go", DC+"instance.go", DC+"resolver.go", DC+"resolver-handler.go", DC+"reference.go"],
 [("Controller.mtx", DC+"controller.go"), ("*Locked naming convention", DC+"instance.go")])
prop("E09", "A stopped or restarted resolver can no longer change the directive",
 "Once a resolver has been stopped, removed or restarted, the handle given to its earlier execution can no longer add, remove or clear values, change the idle state, register callbacks or start child resolvers; such calls have no effect and report so. A removal callback or child resolver offered through such a stale handle is reported removed immediately instead of being dropped silently.",
 ["schedules", "histories"],
 "every operation of a resolver handle at every moment relative to cancellation and restart",
 "Needs a resolver that keeps calling after it has been canceled; the tests never do that.",
 [DC+"resolver-handler.go", DC+"resolver.go", DC+"instance.go"],
 [("context identity check", DC+"resolver-handler.go all methods")],
 ["directive.ResolverHandler"])
prop("E10", "A resolver never runs twice at once and its outcome is recorded",
 "Two executions of the same resolver never overlap: a restarted resolver begins only after its previous execution has returned. A resolver that is still running is not started again, each execution gets a context that is canceled when the resolver is stopped, removed or restarted or when the directive is disposed, and when the current execution returns the resolver is marked exited and idle with the error it returned.",
 ["schedules", "histories"],
 "all interleavings of start, stop, restart and return of a resolver",
 "Restart happens only at value caps, which no test configures; overlap requires a slow resolver and a fast restart.",
 [DC+"resolver.go", DC+"resolver-handler.go"],
 [("exit channel hand-over", DC+"resolver.go updateContextLocked, resolver-handler.go executeResolver")])
prop("E11", "Handlers see every directive, and a removed handler leaves nothing behind",
 "A handler that is added is asked to resolve every directive already running, every directive added later is offered to every handler then attached, and an error or panic from one handler does not keep the others from being asked. When a handler is removed it is no longer asked about new directives and all its resolvers on all directives are stopped and their values withdrawn; resolvers it returns too late, or for an instance already disposed, are never started.",
 ["schedules", "histories"],
 "all interleavings of adding/removing handlers and adding/disposing directives",
 "Tests add all handlers first; removing a handler while it is being asked needs an interleaving.",
 [DC+"controller.go", DC+"instance.go"],
 [("AddHandler / removeHandlerLocked", DC+"controller.go"), ("attachStartResolverLocked", DC+"instance.go")],
 ["directive.Controller.AddHandler"])
prop("E12", "Removal callbacks fire exactly once or not at all after release",
 "A callback registered for the removal of a value or of a resolver, and the removal callback of a child resolver, is called exactly once when the value or resolver goes away for any reason, or immediately when it is already gone. It is never called after its release function was called first. Releasing a child resolver stops it, withdraws its values and triggers its removal callback.",
 ["histories", "schedules"],
 "every order of registration, release, value removal, resolver removal, handler removal and disposal",
 "No test registers removal callbacks on the real engine.",
 [DC+"instance.go", DC+"resolver-handler.go"],
 [("value removal callbacks", DC+"instance.go addValueRemovedCallbackLocked/onValuesRemovedLocked"), ("resolver removal callbacks", DC+"instance.go addResolverRemovedCallbackLocked/removeResolverLocked")])

prop("B01", "A controller is on the bus exactly while it is attached",
 "A controller added to the bus is listed and receives directives from before it is executed until it is removed or released; if attaching it fails, it is not listed, not executed, and the caller gets the error. When its execution returns an error or panics, it is removed from the bus and the error (for a panic, a non-nil error) is passed to the caller or callback; returning without an error leaves it attached. Removing or releasing it detaches its directive handler, and calling the release function of a controller that was added also cancels its execution context.",
 ["histories", "schedules", "fault_sequences"],
 "every controller outcome (nil, error, panic, attach failure) and every order of add/execute/remove/release",
 "Tests only add well-behaved controllers and never observe failure, panic or removal.",
 ["bus/inmem/inmem.go"],
 [("AddController/ExecuteController/RemoveController", "bus/inmem/inmem.go")],
 ["bus.Bus.GetControllers"])
prop("B02", "The bus never calls out while holding its own lock",
 "While it holds the lock protecting its controller list, the bus never calls a controller, a directive handler, a release callback or the directive engine, so those may call back into the bus without deadlock; the list is only accessed under that lock and the lock is released on every path.",
 ["schedules", "programs"],
 "every bus operation with controllers whose callbacks re-enter the bus",
 "A deadlock needs a handler or removal callback that re-enters the bus; the tests have none.",
 ["bus/inmem/inmem.go"],
 [("Bus.mtx", "bus/inmem/inmem.go addController/removeController")])
prop("B03", "One-shot execution never leaks or prematurely drops its directive reference",
 "The helpers that execute a directive once and return a value or a list of values release their directive reference on every path that does not return it to the caller: engine error, resolver error, filter error, idle without a value, disposal and caller cancellation. They return a non-nil error only without a reference and, when they return a value, return the reference that keeps it alive unreleased; the idle callback they register is always unregistered.",
 ["schedules", "fault_sequences", "inputs"],
 "every exit of every one-shot and collect helper under every order of value, idle, error, disposal and cancellation",
 "A leaked reference is invisible to a functional test; the error and cancellation exits are not exercised.",
 ["bus/oneoff.go", "bus/wait.go", "bus/multi.go"],
 [("ExecOneOffWithFilter and wrappers", "bus/oneoff.go"), ("ExecWaitValue", "bus/wait.go"), ("ExecCollectValues", "bus/multi.go")])
prop("B04", "One-shot execution returns the right outcome and wakes up for it",
 "A one-shot execution returns the first value its filter accepts, and only a value of the requested type; collect returns exactly the values of the requested type present when the directive became idle (with wait-one, not before there is at least one). A filter error, a resolver error the idle policy does not ignore, and disposal of the directive each make it return that error rather than wait on or lose it, and every state change that can end the wait wakes the waiter. The value-disposed callback is called when a returned value is removed or the directive is disposed.",
 ["schedules", "inputs", "fault_sequences"],
 "every order of value, idle, error and disposal notifications relative to the waiting caller",
 "Lost wake-ups and overwritten errors need specific orders of notifications, e.g. an idle report after a filter error.",
 ["bus/oneoff.go", "bus/multi.go", "bus/wait.go"],
 [("broadcast-guarded state", "bus/oneoff.go ExecOneOffWithFilter"), ("collect loop", "bus/multi.go")])
prop("B05", "Watch helpers track the current values and undo their effects",
 "A watch helper reports values only of the requested type, reports the currently selected value and moves to another available one when the selected value is removed, and reports the unset state when none is left or the directive is disposed. The effect helpers run the release function returned for a value exactly once when that value is removed, replaced or the directive is disposed, also when the value is removed while its effect is still being prepared. Where values are chosen by default order the lowest value id wins.",
 ["histories", "schedules"],
 "every sequence of value additions/removals/disposals and every callback result",
 "Only the trivial add-one-value flows are tested.",
 ["bus/watch.go", "bus/refcount.go"],
 [("ExecOneOffWatchCb/SelectCb/Ch/Effect", "bus/watch.go"), ("ExecWatchEffect/TransformEffect", "bus/watch.go")])
prop("B06", "Forwarded values stay paired with their sources",
 "The pass-through and transform handlers and the bridge between two buses emit one forwarded value per accepted source value and remove exactly that forwarded value when its source value is removed; when the source directive is disposed all forwarded values are withdrawn and the owner is told. A transform that rejects a value forwards nothing and no transform forwards the value itself. The bridge never forwards a directive that it is already forwarding, so two bridges cannot loop.",
 ["histories", "schedules", "inputs"],
 "all sequences of source additions, removals and disposals, with accepting and rejecting receivers and transforms",
 "The transform handler's identity mode, rejections and two-way bridges have no test.",
 ["bus/passthru.go", "bus/transform.go", "bus/bridge/bridge.go", "bus/bridge/resolver.go"],
 [("id mapping", "bus/passthru.go, bus/transform.go, bus/bridge/resolver.go"), ("loop avoidance", "bus/bridge/bridge.go")])
prop("B07", "The remote bus API executes controllers only when enabled",
 "A remote request to execute a controller is rejected before anything is decoded or applied unless the configuration enables it; when enabled, request, resolution and stream errors are returned to the client. The bus-information request reports every controller and every directive present on the bus. The server reports registration, listening and serving errors and stops accepting requests when its controller stops.",
 ["inputs", "configurations"],
 "every configuration and every remote request",
 "No test exercises the API.",
 ["bus/api/api.go", "bus/api/controller/controller.go"],
 [("ExecController gate", "bus/api"), ("GetBusInfo", "bus/api")])

prop("R01", "Resolver adaptors release everything they acquire",
 "The stock resolvers that wrap a getter, access function, reference counter or keyed reference counter hand the acquired value to the directive and release it exactly once, when it stops being used: when the resolver ends, when the acquisition becomes invalid, or at once when the value is rejected (the access resolver also when the emitted value is removed). A failed acquisition is returned as the resolver's error and emits nothing, and an acquisition that reports itself released is withdrawn from the directive.",
 ["schedules", "fault_sequences", "histories"],
 "every outcome of acquisition, every rejection and every moment of release or cancellation",
 "Leaks and rejected values do not show in the existing resolver tests, which use a mock that accepts everything.",
 ["directive/access-resolver.go", "directive/getter-resolver.go", "directive/keyed-getter-resolver.go", "directive/refcount-resolver.go", "directive/keyed-refcount-resolver.go", "directive/value-resolver.go", "directive/func-resolver.go"],
 [("Resolve of each adaptor", "directive/*-resolver.go")])
prop("R02", "Tracking resolvers mirror their source exactly",
 "A resolver that follows a watched container, a unique list or a unique keyed map keeps exactly one emitted value per current (non-empty, accepted) source item: it withdraws the value of an item that changed or disappeared, before or together with emitting its replacement, and ignores unchanged items. It stops when its context is canceled and reports source and transform errors.",
 ["histories", "inputs", "schedules"],
 "all sequences of source states, including repeated, empty and rejected items",
 "Two tests drive two or three states of the watchable resolver only.",
 ["directive/watchable-resolver.go", "directive/watchable-transform-resolver.go", "directive/unique-list-resolver.go", "directive/unique-map-resolver.go"],
 [("Resolve / callbacks of each resolver", "directive/")])
prop("R03", "Transform resolvers pair each result with its source value",
 "A resolver that transforms the values of another directive emits at most one value per source value, removes exactly that value and calls its release function when the source value is removed, and withdraws everything when it ends or the source directive is disposed. It reports idle and errors of the source directive as its own, and a transform error ends it with that error.",
 ["histories", "schedules", "inputs"],
 "all sequences of source value additions and removals with arbitrary ids on both sides",
 "Source and emitted value ids coincide in simple scenarios, hiding mismatched pairing; there is no test.",
 ["directive/transform-resolver.go", "directive/typed-transform-resolver.go"],
 [("id pairing", "directive/transform-resolver.go Resolve")])
prop("R04", "Retrying retries errors with backoff and stops when it should",
 "The retrying resolver runs its inner resolver again after an error, waiting the backoff interval in between, returns as soon as the inner resolver succeeds, and stops when the context is canceled or the backoff policy says to stop.",
 ["fault_sequences", "schedules"],
 "every sequence of inner outcomes and backoff answers",
 "No test covers the retry resolver; the stop answer needs an exhausted policy.",
 ["directive/resolver-retry.go", "directive/retry-resolver.go"],
 [("RetryResolver", "directive/")])

prop("L01", "An executed controller follows its directive's life and is retried on failure",
 "Resolving a request to execute a controller emits a running state only while the controller runs, reports construction and execution failures as an error state, and retries them after a backoff for as long as the request lives. Whenever the controller stops, fails to start, is replaced or the request ends, the emitted state is withdrawn and the constructed controller is closed once it is no longer used, also when emitting the state was rejected.",
 ["fault_sequences", "schedules"],
 "every outcome of construct/execute/emit and every moment of cancellation",
 "Only the success path is tested.",
 ["controller/loader/loader-resolve.go", "controller/loader/loader.go", "controller/loader/ex-load-controller.go"],
 [("resolver loop", "controller/loader/loader-resolve.go Resolve"), ("wait for running state", "controller/loader/ex-load-controller.go")])
prop("L02", "Loading a controller by config resolves, runs and cleans up",
 "Loading a controller with a configuration looks up the factory for that configuration, executes it, emits the running controller for as long as it runs, and reports a failed lookup or execution as an error. Every reference it takes on the way (factory lookup, execution) is released when the request ends or on any failure, and closing a controller resolver ends the executions it started.",
 ["fault_sequences", "schedules"],
 "every failure point and cancellation moment",
 "Only the success path is tested.",
 ["controller/resolver/res-load-with-config.go", "controller/resolver/res-load-config-ctor.go", "controller/resolver/res-load-factory.go", "controller/resolver/controller.go"],
 [("resolvers", "controller/resolver/")])
prop("L03", "The static factory registry finds the right factory",
 "The static registry returns, for a configuration or config id, a registered factory with exactly that id, the one with the highest version when several are registered, and reports nothing when there is none. The registry can be used from several goroutines at once: it is only accessed under its lock and snapshots are copies.",
 ["inputs", "schedules", "histories"],
 "every set and order of registered factories, versions and concurrent lookups",
 "Tests register each factory once.",
 ["controller/resolver/static/resolver.go"],
 [("AddFactory/lookup", "controller/resolver/static/resolver.go")])
prop("L04", "Requests are merged only when they are really the same",
 "Every built-in directive considers itself equivalent to another only if that one is the same kind of request and all parameters that determine its result agree; its validation rejects a missing or invalid parameter. A kind mismatch or a missing configuration is answered with \"not equivalent\" or an error, never with a panic or a merge.",
 ["inputs"],
 "every pair of directives and parameter values",
 "Tests never compare two differing directives of the same kind.",
 ["controller/loader/dir-exec-controller.go", "controller/resolver/dir-load-controller.go", "controller/resolver/dir-load-config-ctor.go", "controller/resolver/dir-load-factory-by-config.go", "controller/configset/apply-configset.go", "controller/configset/lookup-configset.go"],
 [("IsEquivalent/Validate of each directive", "controller/**/dir-*.go")])

prop("G01", "In a config set the newest revision of each entry wins",
 "When config sets are merged or a configuration is pushed for a key that is already running, the entry with the higher revision is kept for each key, entries present in only one set are kept, and the inputs are not modified. Two config sets are equal only if they have the same keys with equal revisions and equal configurations.",
 ["inputs", "histories"],
 "all pairs and sequences of config sets and revisions",
 "No test merges conflicting revisions.",
 ["controller/configset/configset.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/controller.go"],
 [("MergeConfigSets / ConfigSet.Equal", "controller/configset/configset.go"), ("ApplyConfig", "controller/configset/controller/running-ctrl.go")])
prop("G02", "A config-set controller runs exactly while something refers to it",
 "A controller started from a config set keeps running while at least one reference or request for its key exists and is stopped when the last one is released; releasing twice has no further effect, and references pushed without a request persist. A newer configuration restarts it with that configuration, also after an invalid one, and an older configuration is ignored.",
 ["histories", "schedules"],
 "every order of push, apply, release and re-apply on any set of keys",
 "Tests apply one config set once.",
 ["controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/running-ctrl-ref.go"],
 [("reference counting", "controller/configset/controller/running-ctrl-ref.go"), ("execution loop", "controller/configset/controller/running-ctrl.go Execute")])
prop("G03", "Config-set requests report every controller's latest state and clean up",
 "Applying a config set applies every entry of it and reports each state change of each entry, replacing the previously reported state; looking up entries does the same for existing keys. When the request ends, every reference and state callback it registered is released.",
 ["histories", "schedules"],
 "every config set, every state history and every cancellation moment",
 "State changes after the first and request end are not tested.",
 ["controller/configset/controller/apply-config-set.go", "controller/configset/controller/lookup-config-set.go", "controller/configset/controller/running-ctrl.go"],
 [("applyConfigSetResolver / lookupConfigSetResolver", "controller/configset/controller/")])

prop("S01", "Config decoding rejects bad input and keeps id and revision",
 "Decoding a stored or transmitted config set (JSON, YAML or protobuf) yields, for every entry, a configuration constructed by the constructor of that entry's id together with its revision. A missing id, an unknown id, or undecodable or invalid contents are reported as errors and never as a nil or half-filled entry or a panic; encoding writes the same fields that decoding reads.",
 ["inputs", "programs"],
 "every encoded document and every available set of constructors",
 "Tests decode two valid documents.",
 ["controller/configset/proto/controller_config.go", "controller/configset/proto/configset.go", "controller/configset/json/config.go", "controller/configset/json/configset.go", "controller/configset/json/controller-config.go", "controller/configset/json/yaml.go"],
 [("Resolve / Unmarshal", "controller/configset/json, controller/configset/proto")])
prop("S02", "Every message field survives encoding, cloning and comparison",
 "For every wire message of the project, each field is written by the binary encoder, counted by the size computation, read by the decoder under the same field number and wire type, copied by the clone operation, compared by the equality operation, and handled by the JSON encoder and decoder.",
 ["inputs", "programs"],
 "every message type and every field value",
 "No test round-trips the messages field by field.",
 ["**/*.pb.go"],
 [("MarshalToSizedBufferVT/SizeVT/UnmarshalVT/CloneVT/EqualVT/JSON", "**/*.pb.go")])

prop("X01", "An execution request reports its progress truthfully and cleans up",
 "Executing a request applies every resolved config and reports, per controller, configuring, running, error and removal as they happen; resolution failures are returned as an error. When the caller's context ends or sending fails it stops and releases every reference it took.",
 ["schedules", "fault_sequences", "inputs"],
 "every request, controller outcome and cancellation moment",
 "The tests execute one successful request.",
 ["controller/exec/exec.go", "controller/exec/exec-request.go", "controller/exec/exec-response.go"],
 [("ExecuteRequest / Execute", "controller/exec/")])

prop("P01", "Unloading a plugin stops its users before unloading its code",
 "Unloading a loaded plugin happens once: the context it was given is canceled, then everything constructed from its factories is stopped, by canceling the contexts of the factories and removing the controllers from the bus, and then the plugin itself is told to unload; its factories are withdrawn from the bus. A factory is only served, and a controller only constructed, if it is tied to the plugin in this way, also when that happens while the plugin is unloaded. Requests no factory of the plugin matches are passed on as not found.",
 ["schedules", "histories"],
 "every order of construct, execute and unload",
 "No test unloads a plugin.",
 ["plugin/resolver.go", "plugin/static-plugin-factory.go", "plugin/static-plugin.go", "plugin/loader/shared-library/shared-library.go"],
 [("pre-unload hooks", "plugin/resolver.go"), ("unload sequence", "plugin/loader/shared-library/shared-library.go")])
prop("P02", "The plugin directory watcher loads, reloads and unloads plugins",
 "The plugin directory controller loads every plugin file present, reloads one whose file changed, unloads one whose file disappeared, and unloads everything when it stops; an unreadable or broken plugin is reported and does not stop the others. When it watches the directory no change is missed: each is followed by a scan that starts after it. Watcher errors end it with an error and its file-system watch is always closed.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of file-system events and load failures",
 "No test runs the watcher.",
 ["plugin/loader/shared-library/filesystem/watcher.go", "plugin/loader/shared-library/filesystem/controller.go"],
 [("syncPlugins / watch loop", "plugin/loader/shared-library/filesystem/")])
prop("P03", "Plugin code generation is deterministic and complete",
 "Generating the code of a plugin from the same packages always gives the same code, whatever was generated before, and includes the factory of every given package that has one, under a name of its own. It fails rather than emitting code when a package cannot be loaded, type-checked or formatted. What the plugin command leaves unset gets a working default.",
 ["inputs", "configurations"],
 "every set of packages",
 "One golden test with one package.",
 ["plugin/compiler/codegen.go", "plugin/compiler/analysis.go", "plugin/compiler/module-compiler.go", "plugin/compiler/compiler.go", "plugin/cli/compile.go"],
 [("CodegenPluginWrapperFromAnalysis", "plugin/compiler/codegen.go")])

prop("K01", "A factory never panics on or accepts a foreign configuration",
 "Every factory and every configuration comparison in the project checks that a configuration it is given is of its own type before using it: constructing from a foreign configuration fails with an error and comparing with one reports inequality. A factory constructs configurations that carry its own id.",
 ["inputs", "configurations"],
 "every factory with every configuration",
 "Tests only construct with matching configurations.",
 ["bus/factory.go", "bus/api/controller/factory.go", "controller/configset/controller/factory.go", "plugin/loader/shared-library/filesystem/factory.go", "controller/factory.go", "config/config.go"],
 [("Construct / EqualsConfig", "**/factory.go, **/config.go")])
prop("W01", "Every directive reference and registration taken inside the project is released",
 "Wherever the project itself adds a directive, takes a reference, adds a controller or registers a callback that returns a release function, that reference or release function is released on every path of the function that obtained it, or is handed to the caller or stored for a later release. The error result of such an operation is checked before the reference is used.",
 ["programs", "fault_sequences", "schedules"],
 "every call site and every path to every exit",
 "Leaks on error and cancellation paths have no visible effect in a functional test.",
 ["bus/", "controller/", "cli/", "core/", "plugin/"],
 [("call sites of AddDirective, Exec*, AddController, AddHandler, Add*Callback", "whole repository")])
prop("W02", "Errors are never silently dropped and derived contexts are always canceled",
 "An error returned by the engine, a bus operation, a resolver, a factory, a codec or a file operation (other than one of closing a file or writing to the console) is returned, passed on, reported or explicitly discarded by its caller on every path, and a function that only logs it does not then report success, except to go on with the next of several items. Every cancelable context created by the project is canceled on every path or handed to an owner that cancels it.",
 ["programs", "fault_sequences"],
 "every call site and every failure branch",
 "Failure branches are not injected by the tests.",
 ["whole repository"],
 [("error results and context.WithCancel sites", "whole repository")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
