NOTEST = "The repository's tests of the directive controller run a handful of fixed sequences on one schedule each; "

prop("D01", "Equivalent directives share one instance; superseding replaces it",
 "Adding a directive which is equivalent to a live one returns that live instance with a new reference, unless the new directive supersedes it. "
 "A superseded instance is disposed and leaves the directive list, and the new directive gets its own instance. "
 "Concurrent callers adding equivalent directives get the same instance; a directive without an equivalence check is never shared.",
 ["inputs", "schedules", "histories"], "all keys and versions of up to 3 directives, including one that matches and supersedes several, and all schedules of 3 concurrent callers",
 NOTEST + "none adds several superseding directives or races two equivalent ones.",
 [DC + "controller.go"], [("de-duplication and superseding loop", DC + "controller.go AddDirective")])

prop("D02", "Every handler is asked exactly once about every directive",
 "A handler that is attached and a directive that is live are brought together exactly once, whichever was added first and however the additions interleave; a handler that declines, fails or panics does not affect the others. "
 "Every resolver returned for a directive that is still live by a handler that is still attached is started exactly once, and a resolver of a removed handler or released directive is never started.",
 ["schedules", "histories", "fault_sequences"], "all schedules of adding directives, handlers and removing them within the bounds; all outcomes of a handler",
 NOTEST + "none adds handlers and directives concurrently or lets a handler fail.",
 [DC + "controller.go", DC + "instance.go"], [("initial handler calls of a directive", DC + "controller.go AddDirective"), ("initial directives of a handler", DC + "controller.go addHandlerLocked"), ("panic recovery", DC + "instance.go callHandlerUnlocked")])

prop("D03", "A directive lives exactly as long as it is strongly referenced",
 "A directive is listed and not disposed while a strong reference to it is held; weak references do not keep it alive. "
 "When the last strong reference is released it is disposed at once, or after the configured delay unless a new strong reference is added before, or at once in spite of the delay if it has no values and was configured so. "
 "Closing it if unreferenced reports whether it is closed and does so exactly if no counted reference is held; releasing a reference twice has no further effect.",
 ["histories", "schedules", "configurations"], "all histories of up to 5 (thorough 7) operations, all option combinations, the expiry of the timer at any point of all schedules of 2 goroutines",
 NOTEST + "no test covers the disposal delay, weak references or a reference racing the timer.",
 [DC + "instance.go", DC + "reference.go"], [("reference counting", DC + "instance.go addReferenceLocked/removeReferenceLocked"), ("delayed disposal", DC + "instance.go handleUnreferencedLocked"), ("conditional close", DC + "instance.go CloseIfUnreferenced")])

prop("D04", "Disposal is announced exactly once to everyone who listens",
 "When a directive is disposed for any reason, its context is canceled, its resolvers are stopped, the values are removed from every held reference, and then every dispose callback and held reference that was not released is told exactly once; released ones are not told. "
 "A reference or dispose callback added after the disposal is told as well and sees no values, and a panic in one listener does not keep the others from being told.",
 ["histories", "schedules", "fault_sequences"], "all subsets of released listeners, 5 ways of disposal, listeners added or panicking during the notification, all schedules of 3 goroutines",
 NOTEST + "none disposes concurrently or re-enters the directive from a notification.",
 [DC + "instance.go"], [("disposal", DC + "instance.go removeLocked"), ("callback queue", DC + "instance.go callCallbacksLocked"), ("late listeners", DC + "instance.go addReferenceLocked/AddDisposeCallback")])

prop("D05", "Every reference sees exactly the live values",
 "The additions and removals told to a reference are paired: a value is added once under its id, removed at most once with the same value, and never removed before it was added. "
 "Once all calls have returned, every held reference, whenever it was added, has been told about exactly the live values of the directive under the same ids, and about those of one resolver in the order they were added. "
 "This holds also when values, references, handlers or the directive are changed from inside the notifications or a notification panics.",
 ["schedules", "histories", "fault_sequences"], "all schedules of 2 resolvers and 2 references; any of 8 re-entrant operations from any notification",
 NOTEST + "none adds references while values change or re-enters the directive.",
 [DC + "instance.go", DC + "resolver-handler.go"], [("initial values of a reference", DC + "instance.go addReferenceLocked"), ("value notifications", DC + "instance.go addValueLocked/onValuesRemovedLocked"), ("callback queue", DC + "instance.go callCallbacksLocked")])

prop("D06", "Value ids are unique and value operations report what they did",
 "The values of a directive get ids that start at one, strictly increase and are never used again. "
 "Removing a value finds it exactly if this resolver has a live value with that id, and returns it; clearing removes exactly the values of this resolver and returns their ids; the counts equal the number of live values of the resolver or of all resolvers.",
 ["inputs", "histories", "schedules"], "all histories of 3 (thorough 5) operations of 2 resolvers with arbitrary values and ids, all schedules of 3 goroutines",
 NOTEST + "they never remove a value by an arbitrary id nor clear or count values.",
 [DC + "instance.go", DC + "resolver-handler.go"], [("value list", DC + "instance.go addValueLocked/removeValueLocked"), ("clear and count", DC + "resolver-handler.go ClearValues/CountValues")])

prop("D07", "The value cap is enforced and resolvers are stopped and restarted around it",
 "With a value cap, values below it are accepted; at the cap further values are rejected if it is hard and accepted otherwise. "
 "While the cap is reached, busy resolvers without values are canceled and resolvers attached then are not started; resolvers with values keep running. "
 "When the number of values falls below the cap, the resolvers that were stopped or not started for it, and those that had failed, are started again, and no resolver is started by closing the directive.",
 ["configurations", "histories", "schedules"], "caps of 1 and 2, hard or soft, 4 kinds of resolvers, all schedules of 3 resolvers competing for the last places",
 NOTEST + "no test sets a value cap.",
 [DC + "instance.go", DC + "resolver.go"], [("cap", DC + "instance.go addValueLocked/checkFullLocked"), ("stopping and restarting", DC + "instance.go handleFullLocked/handleNotFullLocked")])

prop("D08", "Idle callbacks report the current state and then every change",
 "An idle callback is called with the current state when it is added and afterwards only when the state changes, until it is released or the directive is disposed; the last report is the current state. "
 "A directive without a value cap is idle exactly if all handlers were asked about it and every resolver has returned, is canceled or has marked itself idle. "
 "The errors returned by resolvers are listed when it becomes idle, and no others.",
 ["histories", "schedules"], "all histories of 3 operations on 2 resolvers and 3 callbacks; all schedules of starting a directive with 0 or 1 resolvers and adding callbacks",
 "One test marks one resolver idle on one schedule; none releases callbacks, has directives without resolvers, or adds callbacks while the directive starts.",
 [DC + "instance.go", DC + "callback.go", DC + "resolver.go"], [("idle state", DC + "instance.go handleIdleStateLocked/checkIdleLocked"), ("callback list", DC + "instance.go AddIdleCallback, callback.go removeFromCallbacks")])

prop("D09", "Removing a handler removes its resolvers and values, and only those",
 "When a handler is removed, its resolvers on all directives are canceled, their values are removed from all references, and the handler is not asked again; removing it twice has no further effect. "
 "The directives and the resolvers and values of other handlers are not disturbed. "
 "This holds also when directives, handlers or values change from inside the notifications of the removal, or while a directive is being added or its resolvers are being started.",
 ["histories", "schedules"], "3 directives, 2 handlers, any of 5 re-entrant operations from any notification, idle callbacks removing handlers while resolvers start, all schedules of 3 goroutines",
 NOTEST + "none removes a handler.",
 [DC + "controller.go", DC + "instance.go"], [("handler removal", DC + "controller.go removeHandlerLocked, instance.go removeHandlerLocked"), ("late resolvers", DC + "controller.go AddDirective/addHandlerLocked"), ("resolver start", DC + "resolver.go updateContextLocked")])

prop("D10", "A resolver never runs twice at a time and stale runs have no effect",
 "A resolver that is canceled and started again runs again only after all of its earlier runs have returned, however long those take. "
 "A run that was canceled or replaced can no longer add values or child resolvers or change the idle state, and its result is ignored.",
 ["schedules", "histories"], "up to 3 runs returning at arbitrary times with arbitrary results, all schedules of 2 goroutines filling and draining a capped directive",
 NOTEST + "no test restarts a resolver.",
 [DC + "resolver.go", DC + "resolver-handler.go"], [("run chain", DC + "resolver-handler.go executeResolver"), ("context check", DC + "resolver-handler.go AddValue/MarkIdle")])

prop("D11", "Removal callbacks of values, resolvers and children fire exactly once",
 "A callback registered for the removal of a value or of a resolver is called exactly once when it is removed for any reason, at once if it does not exist any more, and never if the callback was released before. "
 "A child resolver runs like any other and contributes its values to the directive; it is stopped and its values and own children are removed when it is released or when its parent, handler or directive is removed, and its removal callback is called exactly once, also if it was refused.",
 ["histories", "schedules", "inputs"], "arbitrary value ids, 6 ways of removal for values and for a tree of 4 resolvers, all schedules of 3 goroutines",
 "No test registers a removal callback or adds a child resolver.",
 [DC + "instance.go", DC + "resolver-handler.go"], [("value callbacks", DC + "instance.go addValueRemovedCallbackLocked/onValuesRemovedLocked"), ("resolver callbacks", DC + "instance.go addResolverRemovedCallbackLocked/removeResolverLocked"), ("children", DC + "instance.go attachStartSubResolverLocked")])

NOBUS = "The tests of this part run a single bus with one or two fixed controllers; "
prop("B01", "Controllers are attached, executed and detached exactly once",
 "A controller added to or executed on the bus is listed, executed once and asked about every live and later directive until it is removed, released or fails; then it is not listed and not asked any more, its context is canceled if it was released, and its values are removed. "
 "A controller that returns no error stays attached until it is removed. The error of a controller is reported exactly once, to the callback or the caller. "
 "The other controllers are not affected, and the bus can be used from inside the callbacks of a controller, also while controllers are added or removed.",
 ["histories", "schedules"], "all histories of 4 (thorough 5) operations on 2 controllers, all schedules of a controller exiting while it is removed and others are added, operations on the bus from any callback",
 NOBUS + "none removes a controller, lets one fail or uses the bus from a callback.",
 ["bus/inmem/inmem.go", "bus/bus.go"], [("attach and execute", "bus/inmem/inmem.go AddController/ExecuteController"), ("detach", "bus/inmem/inmem.go removeController")])

prop("B02", "A controller that panics fails like any other",
 "A panic in the Execute function of a controller does not reach the process: it is reported as an error exactly once, to the callback or the caller, and the controller and its values are removed while the other controllers keep running.",
 ["fault_sequences", "schedules"], "panics with errors and other values, at once or later, of an added or executed controller, on all schedules within the bound",
 NOBUS + "no test has a controller panic.",
 ["bus/inmem/inmem.go"], [("recovery", "bus/inmem/inmem.go handleControllerPanic")])

prop("B03", "The bus can be read and used concurrently without data races",
 "Every operation of the bus, of directive instances, of resolver handlers and of the static resolver can be called from any goroutine at the same time as any other, without a data race. "
 "A list of directives, controllers or factories contains each at most once, contains everything added before and not removed, contains nothing removed before, and is a snapshot which later operations do not change. "
 "Errors, identity, context and number of values of a directive are those of a moment during the call.",
 ["schedules", "histories"], "all schedules up to the preemption bound of 9 changes with 3 kinds of reads, of all pairs of 16 operations on a directive, and of adding with looking up factories",
 NOBUS + "none reads the state while it changes.",
 ["bus/inmem/inmem.go", "directive/controller/controller.go", "directive/controller/instance.go", "directive/controller/resolver-handler.go", "controller/resolver/static/resolver.go"],
 [("lists", "bus/inmem/inmem.go GetControllers, directive/controller/controller.go GetDirectives"), ("factories", "controller/resolver/static/resolver.go GetFactories")])

prop("H01", "A one-shot lookup returns an accepted value and a reference, or why it ended",
 "A one-shot lookup returns as soon as there is a value accepted by its filter, together with the instance and a reference that keeps the directive, or else as soon as the filter fails, the idle callback ends it (by default: with the reported resolver errors), the directive is disposed or the context is canceled; then it returns that error, or no error if it ended idle, and holds no reference. "
 "It does not return otherwise. After it returned a value, the dispose callback is called exactly if that value is removed. The typed, transforming and waiting variants agree.",
 ["histories", "schedules", "inputs"], "all histories of 4 (thorough 6) operations, 5 idle callbacks, 7 variants; all schedules of a lookup racing values, failures, cancellation and disposal",
 "The tests look up one value that is there or arrives; none has filters failing, resolvers failing, cancellation, disposal or races.",
 ["bus/oneoff.go", "bus/wait.go"], [("outcome of the lookup", "bus/oneoff.go ExecOneOffWithFilter"), ("variants", "bus/oneoff.go, bus/wait.go ExecWaitValue")])

prop("H02", "Collecting values returns exactly the values of the idle directive",
 "Collecting the values of a directive returns once it is idle (and has a value, if asked to wait for one) with exactly its live values of the type and a reference that keeps it, or with an error and no reference if a resolver failed, the directive is disposed or the context is canceled. "
 "Afterwards the returned values are not changed, and the dispose callback is called once if one of them is removed and not otherwise.",
 ["histories", "schedules"], "all histories of 5 (thorough 6) operations, all schedules of two resolvers adding and removing values while they are collected",
 "No test removes a value, fails a resolver or changes values while they are collected.",
 ["bus/multi.go"], [("collection", "bus/multi.go ExecCollectValues")])

prop("H03", "A watched value is always a live one and changes only when it has to",
 "A watch of one value of a directive tells a value as long as one is available that was not rejected, and none otherwise; a rejected value is not offered again. The value is a live one; it is replaced only when it is removed, or, with a selection function, when that chooses another one from the live values, which it is given sorted by their ids. "
 "The callback is called for changes only, never concurrently, and not after the watch was released; the container, routine, channel and serial callback forms hold the current value.",
 ["histories", "schedules", "configurations"], "all histories of 4 (thorough 5) operations of 2 resolvers, 5 selection functions, all forms of watches, all schedules of two resolvers and a starting watch",
 "No test watches a directive whose values are removed or which has more than one.",
 ["bus/watch.go"], [("selection", "bus/watch.go ExecOneOffWatchCb/ExecOneOffWatchSelectCb"), ("forms", "bus/watch.go ExecOneOffWatchCtr/Routine/Ch/LatestCb")])

prop("H04", "Effects are started and released in pairs with the values",
 "A watch with effects has exactly the effects of the live values that are not rejected by the transformation, or exactly the effect of the one selected value; every effect that was started is released exactly once, when its value is removed or no longer selected or the directive is disposed, and that of the previous value before that of the next one is started. "
 "This holds also when values are removed or the context is canceled while they are transformed.",
 ["histories", "schedules"], "all histories of 4 (thorough 5) operations of 2 resolvers, 4 kinds of effects, 4 selection functions, all schedules of transformations racing removal, disposal and cancellation",
 "No test uses effects.",
 ["bus/watch.go"], [("effects", "bus/watch.go ExecWatchEffect/ExecOneOffWatchEffect"), ("transformations", "bus/watch.go ExecWatchTransformEffect/ExecOneOffWatchTransformEffect")])

prop("H05", "Forwarded directives have exactly the values of their source",
 "The pass-through and transform handlers and the bus bridge give the outer directive exactly the live values of the source directive, transformed and without the rejected ones, and remove them when the source removes them or is disposed. "
 "The source is referenced exactly as long as it is forwarded; the bridge forwards exactly the directives its filter accepts, also when one is added again right after it was released.",
 ["histories", "schedules"], "all histories of 4 (thorough 5) operations of the source, 4 kinds of forwarding, all schedules of values changing while the forwarding starts or ends",
 "No test forwards a directive.",
 ["bus/passthru.go", "bus/transform.go", "bus/bridge/bridge.go", "bus/bridge/resolver.go"], [("handlers", "bus/passthru.go, bus/transform.go HandleValueAdded/HandleValueRemoved"), ("bridge", "bus/bridge/resolver.go Resolve, bus/bridge/bridge.go HandleDirective")])

prop("H06", "A reference counted lookup holds a live value while it is referenced",
 "A reference counted lookup adds its directive exactly while it has a reference and a context, or keeps the value afterwards if configured to. Every reference sees the same live accepted value of the directive, or none if there is none; when the value is removed it is replaced by another one. "
 "An error of the lookup is given to every reference; the container always has the current value. Nothing is looked up anymore after the last reference is released or the context is cleared, also if that happens while values change.",
 ["histories", "schedules"], "all histories of 5 operations on references and accepted or refused values, all schedules of values changing while references are added and released",
 "No test uses a reference counted lookup.",
 ["bus/refcount.go", "bus/oneoff.go"], [("lookup", "bus/refcount.go NewOneOffRefCountResolver, bus/oneoff.go")])

prop("H07", "Reference handlers pass on every event once and errors reach their channel",
 "The function handlers, the typed handler with its handler for other values, the logging handler and the forwarding handlers pass every added and removed value and the disposal to the right function exactly once, whichever of their functions are missing, and nothing after the release. "
 "A forwarding handler leaves no value behind when its directive is disposed. The error channel callback sends the errors of the resolvers, never a cancellation, and if told so only while the directive is idle. A lookup or watch whose directive is refused returns that error and nothing else.",
 ["histories", "configurations"], "all histories of 3 operations of 2 resolvers or 4 direct events, all subsets of the functions of 6 handlers, all 16 lookups and watches on a refusing bus",
 "No test uses these handlers with missing functions, values of other types or a bus which refuses directives.",
 ["directive/callback-handler.go", "directive/typed-callback-handler.go", "directive/log-handler.go", "directive/err-idle-callback.go", "bus/passthru.go", "bus/transform.go"], [("dispatch", "directive/typed-callback-handler.go HandleValueAdded/HandleValueRemoved/HandleInstanceDisposed"), ("forwarding", "bus/passthru.go, bus/transform.go"), ("errors", "directive/err-idle-callback.go NewErrChIdleCallback")])

NORES = "The existing tests run a resolver once to its first value; "
prop("R01", "A resolver of released values holds exactly the value it emits",
 "The access, keyed getter, reference count, keyed reference count, getter and function resolvers emit the value they got and hold it as long as it is emitted; when the source releases it they release it, remove it and get another one, at most one being held at a time. "
 "Every value is released exactly once: when it is replaced, rejected, fails, or the resolver is stopped; an error of the source is reported. A release of a value that was already replaced has no effect.",
 ["histories", "schedules"], "all histories of 2 (thorough 3) releases of current and old values with failing and missing values, all schedules of a release racing the start and stop",
 NORES + "none releases a value, twice, early or concurrently.",
 ["directive/access-resolver.go", "directive/keyed-getter-resolver.go", "directive/refcount-resolver.go", "directive/keyed-refcount-resolver.go", "directive/getter-resolver.go", "directive/func-resolver.go"],
 [("release of a value", "directive/access-resolver.go, directive/keyed-getter-resolver.go Resolve"), ("containers", "directive/refcount-resolver.go, directive/keyed-refcount-resolver.go Resolve")])

prop("R02", "Transforming resolvers emit exactly the transformed values of their source",
 "The transforming resolvers add the source directive while they run and emit exactly the transformed values of its live values that the transformation accepts: the transformed value is removed and released exactly once when the value is removed, whatever ids the values have. "
 "An error of the transformation or the source ends the resolver with that error; the idle state follows the source. When the resolver ends, the source directive and all transformed values are released.",
 ["histories", "schedules"], "all histories of 4 (thorough 5) operations of the source with accepted, skipped and failing values, all schedules of values changing while the resolver is stopped",
 "No test uses the transforming resolvers.",
 ["directive/transform-resolver.go", "directive/typed-transform-resolver.go"],
 [("value ids", "directive/transform-resolver.go transformedVals"), ("end", "directive/transform-resolver.go, directive/typed-transform-resolver.go Resolve")])

prop("R03", "List, map, watch and value resolvers emit exactly the current values",
 "The unique list and map resolvers emit each keyed value exactly once, replace it only if the comparison says it changed, and remove it with its key; the watching resolvers emit exactly the current, transformed value of the container or none and end with the error of the transformation; the value resolver emits its list once, also when restarted.",
 ["inputs", "histories", "schedules"], "all histories of 3 operations on 2 (thorough 3) keys with arbitrary 32 bit values, arbitrary values of a watched container, all schedules of changes racing the resolver",
 "The tests emit one watched value; none changes values, uses lists or maps, or restarts.",
 ["directive/unique-list-resolver.go", "directive/unique-map-resolver.go", "directive/watchable-resolver.go", "directive/watchable-transform-resolver.go", "directive/value-resolver.go"],
 [("keyed values", "directive/unique-list-resolver.go, directive/unique-map-resolver.go"), ("watched values", "directive/watchable-resolver.go, directive/watchable-transform-resolver.go")])

prop("R04", "A failing resolver is retried after its backoff until it succeeds",
 "The retry resolver runs its resolver again after every failure, exactly once per failure and not before the delay of the backoff, until it succeeds, which resets the backoff, or the backoff says to stop, which reports the error. Its runs do not overlap, and it is not retried after it was stopped, also not if that happens during the delay.",
 ["fault_sequences", "configurations"], "all sequences of up to 3 failures and delays, stopped in 3 ways at the end or during a delay",
 "No test uses the retry resolver.",
 ["directive/resolver-retry.go"], [("retry loop", "directive/resolver-retry.go Resolve")])

NOCFG = "The existing tests apply one set of configurations and look up one state; "
prop("C01", "The pushed configuration with the highest revision runs, once",
 "For every key with references, exactly the first pushed configuration with the highest revision is run, once; it replaces one with a lower revision and is not restarted without a change, whatever the other keys do. Nothing else runs; an invalid or failing configuration stops no other one. "
 "Every reference reports the current configuration, its controller or its error, and the last state passed to a state callback is the current one.",
 ["inputs", "histories", "schedules"], "all histories of 3 (thorough 4) pushes and releases of valid, invalid and failing configurations with arbitrary revisions for 2 keys, all schedules of the controller",
 NOCFG + "none pushes revisions, invalid configurations, or releases one.",
 ["controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/running-ctrl-ref.go"],
 [("revisions", "controller/configset/controller/running-ctrl.go ApplyConfig"), ("execution", "controller/configset/controller/controller.go Execute, running-ctrl.go Execute"), ("states", "controller/configset/controller/running-ctrl-ref.go")])

prop("C02", "A configuration runs exactly while it is referenced",
 "A pushed configuration runs from its first reference to the release of the last one, whichever goroutines push and release it concurrently, and never more than once. Nothing runs after the controller is stopped, and the references report that. Pushing, releasing and state callbacks do not block each other.",
 ["histories", "schedules"], "two goroutines pushing and releasing the same key with arbitrary revisions, the controller being stopped, all schedules with 2 (thorough 4) deviations",
 NOCFG + "none releases one or uses it concurrently.",
 ["controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/running-ctrl-ref.go"],
 [("references", "controller/configset/controller/controller.go PushControllerConfig, running-ctrl-ref.go Release"), ("execution", "controller/configset/controller/controller.go Execute")])

prop("C04", "Applied and looked up configurations report exactly one current state",
 "The directives which apply a set of configurations or look up keys have exactly one value per key that is applied, the current state of it, and it is replaced when the state changes. A set is applied as long as its directive is referenced; a lookup keeps the configuration running and starts nothing. "
 "Adding and releasing these directives neither leaks a configuration nor blocks with a concurrent change of its state.",
 ["histories", "schedules"], "all histories of 3 (thorough 4) operations of applying, looking up and releasing 2 keys with 2 revisions, all schedules of two of them concurrently",
 NOCFG + "none releases a directive, changes a state, or does that concurrently.",
 ["controller/configset/controller/apply-config-set.go", "controller/configset/controller/lookup-config-set.go", "controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl-ref.go"],
 [("resolvers", "controller/configset/controller/apply-config-set.go Resolve, lookup-config-set.go Resolve")])

prop("C03", "Merging sets of configurations keeps the latest revision of every key",
 "Merging sets, in memory or as protobuf messages, contains exactly the keys of all sets and for every key the configuration of the highest revision, the later one if they are equal; missing sets and empty entries are skipped, and the inputs are not changed. Two sets are equal exactly if they have the same keys with equal configurations.",
 ["inputs", "configurations"], "3 sets with 2 keys, each missing, empty or with an arbitrary 64 bit revision; pairs of sets for comparison",
 "The existing tests merge nothing: revisions which are equal, decrease, or exceed 32 or 63 bits, and empty entries are not tested.",
 ["controller/configset/configset.go", "controller/configset/proto/configset.go"],
 [("merge", "controller/configset/configset.go MergeConfigSets, proto/configset.go MergeConfigSetMaps"), ("comparison", "controller/configset/configset.go Equal")])

prop("X01", "Messages survive encoding, decoding, comparing and cloning",
 "A message of the protocol which is encoded, in the binary or the JSON format, and decoded again is equal to the original. Decoding arbitrary bytes either reports an error or yields a message which can be encoded again, also with unknown fields, and never crashes or reads beyond the data. A clone is equal to and independent of the original, and messages are equal exactly if their fields are.",
 ["inputs"], "arbitrary 4 bytes (thorough 5 with the tag of a field), lengths of fields of up to 10 arbitrary bytes, messages with arbitrary numbers and strings of up to 2 (thorough 3) arbitrary bytes",
 "The existing tests decode a few complete messages.",
 ["controller/configset/proto/configset.pb.go", "controller/exec/exec.pb.go", "controller/controller.pb.go", "directive/directive.pb.go", "bus/api/api.pb.go", "plugin/loader/shared-library/filesystem/config.pb.go", "controller/configset/proto/controller_config.go"],
 [("encoding", "*.pb.go MarshalVT, UnmarshalVT, SizeVT, MarshalProtoJSON, UnmarshalProtoJSON"), ("copies", "*.pb.go CloneVT, EqualVT")])

prop("X02", "Configurations are the same after converting them to messages or JSON and back",
 "A set of configurations which is converted to a protobuf message, with the configurations in either format, and resolved on a bus has the same keys, revisions and configurations, and so has one in JSON format, where an entry without a configuration has the default one and an empty entry configures nothing. Resolving a set again does not change it. A set written as YAML is the same after reading it; reading a document into a set adds its configurations, overwrites existing ones only if asked to, and reports the added ones. "
 "Data which is not valid JSON but looks like it is refused by validation and is not written to JSON, and every other configuration is the same after JSON. A set with such a configuration or one without an id is refused by validation and not resolved, and every other one is.",
 ["inputs", "configurations"], "sets of up to 3 configurations of 2 types with arbitrary bytes and revisions in 2 formats, data of up to 4 tokens, YAML documents with up to 2 entries",
 "The existing tests convert one valid configuration.",
 ["controller/configset/proto/controller_config.go", "controller/configset/proto/configset.go", "controller/configset/json/config.go", "controller/configset/json/configset.go", "controller/configset/json/controller-config.go", "controller/configset/json/yaml.go"],
 [("protobuf", "controller/configset/proto/controller_config.go NewControllerConfig, Resolve, Validate, MarshalProtoJSON"), ("JSON", "controller/configset/json/config.go Resolve, configset.go Resolve"), ("YAML", "controller/configset/json/yaml.go MarshalYAML, UnmarshalYAML")])

NOLD = "The existing tests load one controller which runs; "
prop("L01", "A controller is executed until it succeeds, and stopped and closed once",
 "The loader constructs the controller of an ExecController directive once and executes it again after every failure or panic, exactly once per failure and not before the delay of the backoff, until it returns or the backoff says to stop, which reports the error. The executions do not overlap. "
 "The directive has exactly one value, the running controller or the error with the time of the next retry. When the directive or the loader is removed, also during a delay, the controller is stopped, removed from the bus and closed once. Waiting for a running controller returns it, or the error, and tells when it is not running anymore.",
 ["fault_sequences", "schedules"], "all sequences of up to 2 failures of the constructor and 2 errors or panics of the controller with delays, stopped in 3 ways at the end or during the delay, all schedules of stopping it",
 NOLD + "none fails, is retried or removed.",
 ["controller/loader/loader-resolve.go", "controller/loader/ex-load-controller.go", "controller/loader/dir-exec-controller.go"],
 [("retry loop", "controller/loader/loader-resolve.go Resolve"), ("wait", "controller/loader/ex-load-controller.go WaitExecControllerRunning"), ("versions", "controller/loader/dir-exec-controller.go Superceeds")])

prop("L02", "A configured controller runs exactly while it is loaded",
 "A LoadControllerWithConfig directive runs the controller of its configuration, once per configuration however many directives and resolvers load it, and reports it, also if the factory is added later. Nothing is loaded for an unknown id. "
 "The controller is stopped, closed once and not reported anymore when the last directive is released or closed, its factory is unloaded, or the resolver or loader is removed, also if that happens while it is being loaded. The backoff of the directive is used.",
 ["histories", "schedules", "configurations"], "all histories of 4 (thorough 5) operations on 3 configurations with 1 or 2 resolvers and 6 ways of ending, all schedules of stopping it",
 NOLD + "none is released, unloaded or loaded twice.",
 ["controller/resolver/res-load-with-config.go", "controller/resolver/dir-load-controller.go", "controller/resolver/controller.go", "controller/loader/loader-resolve.go"],
 [("loading", "controller/resolver/res-load-with-config.go Resolve")])

prop("L03", "The newest factory of a configuration id is found",
 "The static resolver finds exactly the factory with the highest semantic version that was added for a configuration id, and a constructor of its configurations, and lists every id once in order. "
 "The directives which look up a factory or constructor have exactly one value while a resolver has one, which another one replaces when it is removed, and none otherwise.",
 ["inputs", "schedules"], "3 factories of 2 ids with arbitrary versions of three 32 bit numbers and pre-release identifiers, all schedules of adding and removing 2 resolvers",
 NOLD + "none has several versions or resolvers.",
 ["controller/resolver/static/resolver.go", "controller/resolver/res-load-factory.go", "controller/resolver/res-load-config-ctor.go", "controller/resolver/dir-load-factory-by-config.go", "controller/resolver/dir-load-config-ctor.go"],
 [("versions", "controller/resolver/static/resolver.go AddFactory"), ("directives", "controller/resolver/res-load-factory.go, res-load-config-ctor.go Resolve")])

prop("E01", "The reported status of executed controllers is in order and current",
 "Executing a controller or a set of configurations reports the status of each whenever it changes, in order, so that the last report is always the current status, with its error or controller. An error of the single controller or the callback ends the execution and is returned. "
 "Nothing of a set with an invalid configuration is applied, unless partial success is allowed: then the invalid ones are reported and the others applied. When the execution ends, is canceled, or its directive is closed, nothing is left on the bus.",
 ["histories", "schedules"], "all histories of 2 (thorough 3) changes of the state of 1 controller or 2 configurations, ended in 4 ways, all schedules of the reports",
 "No test executes a controller with a callback.",
 ["controller/exec/exec.go", "controller/exec/exec-request.go"],
 [("single controller", "controller/exec/exec.go ExecuteController"), ("set", "controller/exec/exec-request.go Execute")])

prop("P01", "Unloading a plugin removes everything it constructed",
 "Until a plugin is unloaded, its factories and configurations are found and construct controllers like static ones. When it is unloaded, the contexts of its factories are canceled, the controllers they constructed are removed from the bus, and configurations which are loaded through the bus with it are stopped, closed and not reported anymore, also those which are being constructed meanwhile. "
 "Afterwards nothing of it is found or constructed, and unloading does not wait for a constructor. Other plugins are not disturbed.",
 ["histories", "schedules"], "all histories of 4 (thorough 5) operations on 2 plugins, all schedules of looking up, constructing and loading while the plugin is unloaded",
 "No test loads or unloads a plugin.",
 ["plugin/resolver.go", "plugin/static-plugin-factory.go", "plugin/static-plugin.go"],
 [("unload", "plugin/resolver.go PrePluginUnload"), ("construct", "plugin/static-plugin-factory.go Construct, Close")])

prop("P02", "The loaded plugins are those of the watched directory",
 "When a directory is synchronized, exactly the regular files with the suffix of plugins which can be opened and started are loaded, each once: a plugin whose file was removed is unloaded, one whose size or time changed is unloaded and loaded again, and the others, as well as other files, are not touched. A file which is no plugin does not stop the others. "
 "When a plugin is unloaded, its context is canceled, then its resolver and then itself are told, once each, and nothing of it is left on the bus. Watching a directory synchronizes it after every change that happens while it waits, and unloads everything when it ends.",
 ["histories", "schedules"], "all histories of 3 (thorough 4) changes of 2 plugin files with 3 versions among other entries, 5 kinds of files, concurrent loading, unloading and synchronizing",
 "No test loads a plugin from a file or watches a directory.",
 ["plugin/loader/shared-library/filesystem/watcher.go", "plugin/loader/shared-library/plugin.go", "plugin/loader/shared-library/stat.go"],
 [("synchronization", "plugin/loader/shared-library/filesystem/watcher.go SyncPlugins, Execute"), ("loading", "plugin/loader/shared-library LoadPluginSharedLibrary, Close")])

prop("P03", "Cleaning up removes exactly the old versions of a plugin",
 "When the old versions of a plugin are cleaned up, exactly the regular files of the output directory are removed whose name is that of the output file with letters and digits in the place of the hash. Other files, directories and the versions of other plugins whose names contain or resemble it are kept. An output name without a place for the hash removes nothing, one with several or a missing directory is reported.",
 ["inputs", "configurations"], "all file names of 2 (thorough 3) arbitrary printable characters with and without the prefix and suffix of the output name, and combinations of 64 names, 3 patterns and kinds of files",
 "No test cleans up a directory.",
 ["plugin/compiler/watcher.go"],
 [("cleanup", "plugin/compiler/watcher.go CleanupOldVersions")])

prop("P04", "The files of a plugin build keep their meaning",
 "When the module file of a plugin is moved to another directory, every replacement with a relative path leads to the same directory as before and is still a valid path, and the other replacements, the requirements and the versions are unchanged. Merging the import declarations of a generated file keeps every import, in order and in one declaration, and the other declarations.",
 ["inputs", "configurations"], "modules with all combinations of 12 and 3 replaced paths which move to 5 directories; files with all sequences of 4 declarations of 5 kinds",
 "One test relocates one module with one relative replacement.",
 ["plugin/compiler/module-utils.go", "plugin/compiler/merge-imports.go"],
 [("relocation", "plugin/compiler/module-utils.go relocateGoModFile"), ("imports", "plugin/compiler/codegen.go FormatFile, plugin/compiler/merge-imports.go mergeImports")])

prop("P05", "The code of a plugin has the factories of its packages",
 "The code generated for a plugin compiles and depends only on the packages, the identifier and the version of the plugin. It constructs the factory of each of the packages which have one exactly once, whatever the names of the packages are, and nothing else; the plugin has the given identifier and version and is exported under the name the loader looks up. The code files of the analyzed packages are listed for exactly the packages which match the filters.",
 ["inputs", "configurations"], "1 to 3 packages with 4 names (also the names the code uses itself) with or without a factory; identifiers with an arbitrary byte; maps with up to 3 keys (thorough 4) in every order; 20 combinations of filters",
 "No test generates the code of a plugin.",
 ["plugin/compiler/codegen.go", "plugin/compiler/analysis.go", "plugin/compiler/merge-imports.go"],
 [("code", "plugin/compiler/codegen.go CodegenPluginWrapperFromAnalysis, FormatFile"), ("analysis", "plugin/compiler/analysis.go AnalyzePackages, GetProgramCodeFiles")])


prop("B04", "Factories and base controllers pass on exactly what they are given",
 "A factory of the bus package constructs one controller per call with exactly the given logger, bus and configuration and returns it or the error of its constructor; a configuration of another type is refused without calling it. It reports its id and version and new configurations. "
 "A base controller reports its id, version and description and does nothing else. A controller which is built from functions calls exactly these: it is executed, asked about directives and closed once, and a missing function does nothing.",
 ["configurations", "inputs"], "4 kinds of configurations, constructors which succeed or fail, an arbitrary version, all combinations of missing, failing and succeeding functions",
 "The tests construct one controller with the right configuration.",
 ["bus/factory.go", "bus/controller.go", "controller/callback/callback.go"],
 [("construction", "bus/factory.go Construct"), ("functions", "controller/callback/callback.go")])

prop("K01", "A core bus runs the configured controllers and stops with its context",
 "A core bus finds exactly the built-in factories, the factory of the configuration sets, and those of a custom resolver, which replaces the static one; an error of an option or of the constructor of the resolver is returned. "
 "A set of configurations which is applied on it runs each configuration once as soon as its factory is known, whether the set is applied before or after the controller of the sets is loaded, and reports the controllers. They are stopped and closed once when the set is released, the controller of the sets is removed, or the context is canceled.",
 ["configurations", "histories", "schedules"], "all sequences of 3 options of 6 kinds; sets of 1 or 2 configurations, factories which are added before, after or never, 3 ways of ending, all schedules with 1 (thorough 2) deviations",
 "The tests build a bus without options which fail and run one controller; none ends anything.",
 ["core/core.go", "controller/configset/controller/controller.go", "controller/configset/controller/factory.go", "controller/resolver/controller.go", "controller/loader/loader.go"],
 [("construction", "core/core.go NewCoreBus"), ("execution", "controller/configset/controller/controller.go Execute")])

prop("K02", "The client commands pass on the request and print every answer",
 "The command which executes controllers sends one request with the configurations of the file and prints every status it receives, in order and each on a line in the JSON format, until the stream ends or is canceled; any other failure is returned. Nothing is executed if the file cannot be read or is not valid. "
 "The command for the information prints the controllers with their versions and the directives with their debug values in the order of the answer, or the answer in the JSON format, and returns the error of the call. A client which was set is used instead of the address, and there is none without an address.",
 ["inputs", "fault_sequences"], "0 to 3 statuses of all kinds, streams which end in 4 ways, failing calls and files; information of 0 to 2 controllers and directives with 0 to 3 debug values",
 "No test runs the commands.",
 ["cli/client.go", "cli/client_exec_configset.go", "cli/client_nodeinfo.go", "bus/api/interactive.go"],
 [("execution", "cli/client_exec_configset.go RunExecController"), ("information", "cli/client_nodeinfo.go RunBusInfo"), ("client", "cli/client.go BuildClient")])

prop("A01", "The API reports exactly what is on the bus and executes only if it is enabled",
 "The information of a bus has exactly its controllers, with their information, and its directives, with their names and debug values in order, in the representation of every directive of the repository. "
 "A controller is executed by the API only if that is enabled, with the given configurations, and its status is sent; the execution ends, and nothing of it is left on the bus, when the stream fails or is canceled. Other methods are not found, and failures of the stream are returned.",
 ["histories", "inputs", "schedules"], "0 to 2 controllers and directives of 6 kinds with up to 3 debug values with arbitrary bytes in every order of the maps; all calls of the service with failing streams, all schedules with 1 (thorough 2) deviations",
 "No test uses the API.",
 ["bus/api/api_get_bus_info.go", "bus/api/api_exec_controller.go", "bus/api/api.go", "directive/directive.go", "bus/api/interactive.go"],
 [("information", "bus/api/api_get_bus_info.go GetBusInfo, directive/directive.go NewDirectiveState"), ("execution", "bus/api/api_exec_controller.go ExecController")])

prop("P06", "A plugin is built from copies of its packages",
 "Generating the modules of a plugin creates a copy of the files of each of its packages, in which the imports of its packages have the prefix of the plugin and nothing else is changed; a module file for each of the modules and for the plugin, in which the requirements and replacements of the modules are kept and lead to the same directories, and which find all modules of the plugin and the other packages of the modules outside of the module cache; and a program which imports the factories. Whatever the order in which the modules are built, nothing of a previous build is left, and other files and the sources are not changed. Packages and modules which cannot be built are reported, and cleaning up removes the generated files and nothing else.",
 ["inputs", "configurations"], "1 and 2 modules in 4 places with 4 paths (one of them within the other), up to 3 packages, stale files, an import with an arbitrary letter, maps with up to 2 keys (thorough 3) in every order, 5 failures; formatting by gofumpt is assumed to not change the meaning (the witnesses are run with it)",
 "No test generates modules.",
 ["plugin/compiler/module-compiler.go", "plugin/compiler/module-utils.go", "plugin/compiler/codegen.go", "plugin/compiler/util.go"],
 [("modules", "plugin/compiler/module-compiler.go GenerateModules"), ("cleanup", "plugin/compiler/module-compiler.go Cleanup"), ("module cache", "plugin/compiler/util.go filepathHasPrefix")])

prop("P07", "A watched plugin is compiled again when it changes",
 "Watching a plugin generates its code and compiles it in two passes, the second of which has paths and a version of its own which depend on the result of the first; the result is written to the output path and reported, and old versions and the generated code but no other files are removed. When a code file of the packages changes, however the packages are given, the plugin is compiled again, but it is not written and reported again if it would be the same; other events are ignored. Failures are returned and then there is no new plugin, and the watcher ends with its context and leaves nothing open.",
 ["histories", "configurations"], "a package with 2 files; output paths with and without the hash; each of the 4 calls of the compiler and the callback may fail; 1 change with 1 or 2 of 4 events; the go tool, the hash functions and the kernel's events are modelled (natively: a script, the real hash functions and a scripted watcher)",
 "No test watches a plugin.",
 ["plugin/compiler/watcher.go", "plugin/compiler/module-compiler.go", "plugin/compiler/hash.go", "plugin/compiler/util.go", "plugin/compiler/analysis.go"],
 [("build", "plugin/compiler/watcher.go WatchCompilePlugin"), ("compiler", "plugin/compiler/module-compiler.go CompilePlugin"), ("hash", "plugin/compiler/hash.go HashPluginForBuildID"), ("copy", "plugin/compiler/util.go copyFileFromTo")])

prop("P08", "The commands for plugins compile or generate them once",
 "Compiling a plugin once generates its code into the given or a temporary directory, compiles it unless only the code is wanted, and writes the result to the output path; temporary directories are removed in any case, and the generated code unless it is to be kept. The identifier, the version and the prefix are the given ones, and generated if they are not given. Failures, missing packages and invalid output paths are returned as errors, and then there is no plugin.",
 ["inputs", "configurations"], "all combinations of the arguments (given or not) of the two commands with 0 or 1 packages; the compiler fails at any of its 2 calls or not; the go tool is modelled as in P07",
 "No test executes the commands.",
 ["plugin/cli/compile.go", "plugin/cli/codegen.go", "plugin/cli/cli.go", "plugin/compiler/codegen.go"],
 [("command", "plugin/cli/compile.go runCompileOnce, setupCompiler"), ("codegen", "plugin/cli/codegen.go runCodegenOnce"), ("function", "plugin/compiler/codegen.go BuildPlugin")])
