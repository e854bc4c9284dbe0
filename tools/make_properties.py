"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["nion/utils/" + f for f in files],
            state=[dict(name=a, meaning=b, where="nion/utils/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="nion/utils/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Event delivery: live listeners, in order added, exactly once",
 "Firing an event (directly, or through the notify methods of an observable) calls each listener that was live when the fire started exactly once, with the fired arguments, in the order added; listeners added during a fire are first called by the next fire, and a listener closed or whose owner has gone (also during the fire, before its turn), or dropped by its holder before the fire, is not called. fire_any stops at the first true result and returns True, else returns False; fire_all stops at the first false result and returns False, else returns True; closed listeners count for neither. An exception in a listener does not reach the caller of fire, nor does it unsubscribe any listener.",
 ["histories", "inputs"], "every history of listen / close / drop / owner death / fire, including operations performed by listeners while the event is firing (nested fires, closes, new listeners) and listeners that raise",
 "the tests fire a handful of events with one or two listeners; re-entrant histories and mixed lifetimes are unbounded",
 ["Event.py"], [("snapshot of weak listeners taken at start of fire", "Event.py:Event.fire"), ("closed listener turns into a no-op", "Event.py:EventListener.close"), ("weakref callbacks remove listeners", "Event.py:Event.listen")],
 ["Event.listen", "Event.fire", "Event.fire_any", "Event.fire_all", "listener callbacks"])

prop("C02", "Event is safe under concurrent listen, close, drop and fire",
 "While several threads listen to, close, drop and fire the same event, no operation raises or deadlocks; each fire calls every listener whose listen returned before the fire began and that was not closed or dropped before the fire ended exactly once and in the order added, and never calls a listener closed, or dropped while no other fire was in progress, before the fire began. Afterwards the event reports exactly the listeners that are still alive.",
 ["schedules", "histories"], "every interleaving of listen, close, drop (garbage collection) and fire by several threads",
 "the tests use a single thread",
 ["Event.py"], [("listener list guarded by a mutex", "Event.py:Event")],
 ["Event.listen", "Event.fire", "listener callbacks", "Event.listener_count"])

prop("C03", "List model notifications replay to the list's contents",
 "For every list model (plain, filtered, mapped, flattened, and chains of them), a listener that starts with a copy of the items and applies each insert notification (item at index) and remove notification (item at index) in order always ends up with a list equal to the model's items, also while the notification is being delivered. Every notification carries the model's own items key, a valid index, and for removals the very item which was at that index.",
 ["histories", "inputs", "configurations"], "every sequence of edits, filter/sort/container changes, grouped changes and item changes over every composition of list models",
 "the tests compare final contents for a few scripted edits and never replay the notifications of long histories",
 ["ListModel.py"], [("insert/remove instructions generated for old to new list", "ListModel.py:FilteredListModel.__update_items"), ("notify_insert_item / notify_remove_item", "Observable.py")],
 ["item_inserted_event", "item_removed_event", "items"])

prop("C04", "Filtered list contents equal filter and sort of the source",
 "After every operation outside of a change group, a filtered list contains exactly the source items which match the filter, each once; ordered by the sort key (descending if reverse) if there is one, and in source order otherwise. This holds for any history of source edits, item changes, filter, sort key and reverse changes, container replacement, and (nested) change groups, and also for chained filtered lists.",
 ["histories", "inputs", "configurations"], "every history of operations on the source, the items and the filtered list, with any grouping",
 "incremental update paths (binary search, diff, full replacement) depend on the history that led to the current list; the tests sample a few",
 ["ListModel.py"], [("sorted / unsorted insert position", "ListModel.py:FilteredListModel.__insert_item"), ("diff of old and new items", "ListModel.py:FilteredListModel.__update_items"), ("item changed handling", "ListModel.py:FilteredListModel.__updated_master_item")],
 ["FilteredListModel.items", "FilteredListModel.container"])

prop("C05", "Mapped and flattened lists follow their source element by element",
 "A mapped list always holds, at each index, the result of mapping the source item at that index; the map function is called exactly once for each item inserted and the unmap function exactly once, with the mapped item, for each item removed, including removal because the container changes or the list closes. A flattened list always equals the concatenation, in source order, of the children of its source items.",
 ["histories", "inputs"], "every history of source edits, child edits and container replacements",
 "index arithmetic of parallel lists depends on the history of edits; the tests sample a few edits",
 ["ListModel.py"], [("mapped items kept by index", "ListModel.py:MappedListModel"), ("flattened index from children before", "ListModel.py:FlattenedListModel")],
 ["MappedListModel.items", "FlattenedListModel.items", "map_fn", "unmap_fn"])

prop("C06", "Selections of a list model keep following the same items",
 "A selection attached to a filtered, mapped or flattened list keeps selecting the same items while single items are inserted, removed, or enter, leave or move as they change (filter, sort and container unchanged, no change group open): removed items leave the selection, inserted items are not selected, and all others (except possibly the item being moved) stay selected or unselected at their new indexes; a released selection no longer changes and others are unaffected by the release. The anchor stays on its item while that item stays in the list, and otherwise moves to a selected index or None.",
 ["histories", "inputs"], "every history of edits and selections, with one or more selections attached",
 "index shifting depends on which of the code paths moved the items; the tests cover a few inserts",
 ["ListModel.py", "Selection.py"], [("selection.insert_index / remove_index at the notified index", "ListModel.py"), ("shifting of indexes and anchor", "Selection.py:IndexedSelection.insert_index")],
 ["IndexedSelection.indexes", "IndexedSelection.anchor_index", "items"])

prop("C07", "Indexed selection obeys its style and reports every change",
 "Under every sequence of set, set_multiple, add, add_range, remove, toggle, extend, clear, insert_index and remove_index the selection is what its operations say (extend selects the whole range between anchor and index, insert/remove shift indexes at or above the position), a single or single-or-none selection never has more than one index and a none selection never has any, the anchor is a selected index whenever something is selected, and ordered_indexes is the sorted selection with the anchor first. Selections are equal exactly if their indexes and anchors are. changed_event fires exactly once for each call (per index for add_range) of set, set_multiple, add, remove, toggle, extend or clear which changes the set of selected indexes and not for a call which does not.",
 ["histories", "inputs", "configurations"], "every sequence of operations for each of the four styles",
 "the tests exercise a few operations of the multiple style",
 ["Selection.py"], [("state machine of indexes and anchor", "Selection.py:IndexedSelection")],
 ["IndexedSelection.indexes", "anchor_index", "ordered_indexes", "changed_event"])

prop("C08", "Filters are boolean predicates and survive copying",
 "A composition of filters matches an item exactly when the boolean formula it spells out is true of the item: and, or, not, (not) equal with optional comparison, prefix, case-insensitive text containment, partial dates where unspecified parts match anything, and predicates. A deep copy of any filter matches exactly the same items.",
 ["inputs", "programs"], "every nesting of filters and every item",
 "the tests evaluate a few filters on a few items and never a copy",
 ["ListModel.py"], [("matches", "ListModel.py:Filter and subclasses"), ("__deepcopy__", "ListModel.py:Filter and subclasses")],
 ["Filter.matches", "copy.deepcopy"])

prop("C09", "Change brackets are balanced and enclose the changes",
 "On filtered and mapped lists begin-changes and end-changes notifications always balance (containers being replaced only outside of the containers' change groups): the nesting never goes negative and returns to zero when the operation or the change group ends. Every item inserted into or removed from a filtered list is notified between a begin and its end, and a mapped list which observes a filtered list encloses the item notifications of each of the filtered list's change groups in exactly one begin and one end of its own, however groups nest.",
 ["histories", "configurations"], "every history of edits, filter/sort/container changes and nested change groups on chains of list models",
 "the tests never observe the bracketing events over nested operations",
 ["ListModel.py"], [("begin_changes_event / end_changes_event", "ListModel.py:FilteredListModel"), ("change level", "ListModel.py:MappedListModel.begin_change")],
 ["begin_changes_event", "end_changes_event", "item_inserted_event", "item_removed_event"])

prop("C10", "Bindings keep target and source in agreement until closed",
 "Whenever the bound property (or tuple element, or attribute) of the source changes, the binding sets the target to the converted value, or to the fallback if the value is missing (None, tuple too short, attribute absent); get_target_value always agrees with that, and changes of other properties do nothing. update_source writes the back-converted, validated value to exactly that property, element or attribute, leaving the rest of the source intact, and after close the binding changes nothing any more; a list binding passes on exactly the inserts and removes of its key. An integer range validator clamps to its bounds.",
 ["histories", "inputs", "configurations"], "every history of source and target changes for all binding types, with and without converter, validator and fallback",
 "the tests cover few types with fixed values",
 ["Binding.py", "Validator.py"], [("property_changed listener", "Binding.py:PropertyBinding"), ("update_source / update_target / get_target_value", "Binding.py:Binding"), ("clamp", "Validator.py:IntegerRangeValidator")],
 ["target_setter", "source property", "get_target_value"])

prop("C11", "Converters round trip every value of their domain",
 "For every value in the converter's domain, converting and converting back yields the value (within the resolution of the format: percentages to one percent, scaled integers to one step, formatted floats to their printed digits), and converting back then converting yields the same string or integer again; this holds for integers, floats (also where the locale's decimal point is a comma, and for fuzzy input with surrounding text), physical values with units and multiplier, percentages, scaled integers, check states, uuids (random, version 4), paths and naive datetimes with or without microseconds. Malformed input yields the documented default (0.0 for fuzzy floats, None for uuids and datetimes), a float converter which is not fuzzy refuses it with a ValueError, and None passes through where pass_none is set.",
 ["inputs", "configurations"], "every value, format and locale",
 "the tests try a few values; rounding errors show only for particular ones",
 ["Converter.py"], [("convert / convert_back", "Converter.py")],
 ["convert", "convert_back"])

prop("C12", "Persistent objects round trip through dicts and deep copies",
 "Writing any tree of persistent objects (properties with and without converter, storage key, validator, maker, custom reader and writer; items; relationships) to a dict and reading it into a fresh object gives an equal tree: same uuids, property values, items and order of relationship members, and writing it again gives an equal dict. (A property set to None counts as not set, otherwise it reads as the validated value it was last set to.) Handlers of properties find the new value in place, reading calls the handlers of what was read once each, and leaves properties which are missing in the dict as they were. Hidden properties and items are not visible as attributes, read only properties refuse to be set, and properties which are copied on read, and lists of members, do not expose the object's own state. A deep copy has equal properties, items and members (with uuids of its own), and neither the dict, the copy nor the values given to its properties share mutable state with the original.",
 ["inputs", "histories"], "every object tree reachable by setting properties, setting and clearing items, and inserting and removing members",
 "the tests round trip one or two small fixed objects",
 ["Persistence.py"], [("read_from_dict / write_to_dict", "Persistence.py:PersistentObject, PersistentProperty"), ("deepcopy_from", "Persistence.py:PersistentObject")],
 ["write_to_dict", "read_from_dict", "copy.deepcopy"])

prop("C13", "Persistent storage mirrors the object tree after every change",
 "After each property, item or relationship change anywhere in a tree attached to a context with storage, the storage, updated only through the calls the context makes to it, equals what the tree writes to a dict, and reading the storage yields an equal tree, which takes the place of the former without any storage call and is mirrored as well. Each change produces exactly the storage calls for that change, with the right object, key, index and value; objects outside the context produce none. External data, write delays, rewriting and storage properties of an object reach the storage of the tree it is in.",
 ["histories", "inputs"], "every history of property sets and clears, item replacement and removal, member insertion and removal at any depth",
 "the tests check one or two storage calls",
 ["Persistence.py"], [("property_changed, clear_property, item_inserted, item_removed, item_set", "Persistence.py:PersistentObjectContext"), ("_update_persistent_object_context_property", "Persistence.py:PersistentObject")],
 ["storage handler calls", "write_to_dict", "get_properties"])

prop("C14", "Context knows exactly the attached objects and tells subscribers once",
 "At any time the objects registered with a context are exactly the objects in trees attached to it: attaching, inserting, replacing, removing and detaching registers or unregisters the object and all objects below it, each once, tells it so (once it is registered and has its parent), and their context and parent agree with the tree. A subscriber is called with the object exactly once when it becomes registered (immediately if it already is) and once when it is unregistered; an object which goes away without having been detached is no longer found, and its uuid is free for another object; every change to an object increases the modified count, and updates the time of modification, of it and of all its ancestors, and of no other object. An object read while attached is found by the uuid it was read with, and not by the one it had before.",
 ["histories"], "every history of attach, detach, insert, remove, set and clear of sub trees, with subscriptions made before and after registration",
 "the tests attach one or two objects",
 ["Persistence.py"], [("persistent_object_context setter propagates to contained objects", "Persistence.py:PersistentObject"), ("register / unregister / subscribe", "Persistence.py:PersistentObjectContext"), ("__update_modified", "Persistence.py:PersistentObject")],
 ["get_registered_object", "registration_event", "subscribe", "persistent_object_context", "modified_count"])

prop("C15", "Recorder replays a recorded history onto an equal object",
 "Applying a recorder to a copy of the object, taken when recording started, brings the copy to the same content as the recorded object has after any sequence of recordable changes to properties, items and relationship members at any depth, including members inserted, moved by other inserts and removes, and changed afterwards. It can be applied to several copies, does not share mutable state with the recorded object, and nothing is recorded after close, nor for properties which are not recordable or read only.",
 ["histories", "inputs"], "every history of changes in a tree of observable persistent objects",
 "the tests record short histories without moving members",
 ["Recorder.py"], [("log of changes with accessors", "Recorder.py:Recorder")],
 ["Recorder.apply", "write_to_dict"])

prop("C16", "Structured models round trip values, defaults and copies",
 "Building a model from a schema (records, arrays, fields of any type, nested to any depth) with values gives a model whose dict value is those values over the field defaults; building, loading or copying a model from the dict value of another gives a model with an equal dict value (a field without value is left out, and keeps its value or default when loading or building). Changing a copy, a dict, or values passed in never changes the original, and the sequence interface of array fields behaves like a list.",
 ["inputs", "programs", "histories"], "every schema, value and history of edits",
 "the tests build a few fixed schemas",
 ["StructuredModel.py"], [("build_model / build_value", "StructuredModel.py"), ("to_dict_value / from_dict_value / copy_from / __deepcopy__", "StructuredModel.py")],
 ["to_dict_value", "from_dict_value", "copy_from", "copy.deepcopy", "field access"])

prop("C17", "Structured models notify exactly the changes within their tree",
 "Every change of a field value or array anywhere below a model fires the model's model_changed_event, and changes to items which have been removed, or after the containing record or array was closed, do not. Records report a changed field by name through property_changed_event and inserted and removed array items by field name, item and index; setting a field to an equal value notifies nothing.",
 ["histories", "programs"], "every schema and history of edits, including edits of removed and inserted array items",
 "the tests observe one level and a few edits",
 ["StructuredModel.py"], [("model_changed listeners per item", "StructuredModel.py:ArrayModel"), ("field listeners", "StructuredModel.py:RecordModel")],
 ["model_changed_event", "property_changed_event", "item_inserted_event", "item_removed_event"])

prop("C18", "Derived streams always equal the function of their inputs",
 "At any time the value of a map, combine-latest, property-changed or concat stream equals its function applied to the current values of its inputs, for any graph of such streams and any order of changes (made one after another, not from within a listener). Whenever that value changes it is sent exactly as it then is, in order; map and property streams and value streams do not send when the value stays equal, and no stream sends because of its inputs after it has been closed.",
 ["histories", "programs"], "every graph of streams and every sequence of changes to sources",
 "the tests use one or two streams each",
 ["Stream.py"], [("listeners of input streams", "Stream.py")],
 ["value", "value_stream"])

prop("C19", "Debounce and sample streams deliver the latest value on time",
 "A debounce stream sends nothing until its period has elapsed since the first unsent change and then sends once, with the latest input value; a sample stream sends at most once per period and only if the input changed since the last sample (or for the first sample), with the latest input value at that time. No value which stays the input's latest is lost: it is sent within the period (debounce) or by the next sample, and nothing is sent after close.",
 ["schedules", "histories"], "every timing of input changes relative to the period, including changes made by listeners while a value is being sent",
 "the tests use real time and two or three changes",
 ["Stream.py"], [("debounce task", "Stream.py:DebounceStream"), ("sample loop task", "Stream.py:SampleStream")],
 ["value_stream", "value", "event loop time"])

prop("C20", "Reference counted objects are released exactly once, at zero",
 "A reference counted object calls about_to_delete exactly once: when the last of its references is removed, whatever threads add and remove them; ref_count always equals references added minus removed, the ref context manager removes its reference also when an exception passes through, and removing a reference too many raises; removed without check, the last reference does not release the object, and an object released is not released again by references added afterwards. A derived stream or stream model holds exactly one reference on each input from construction to close, so closing or releasing it releases upstream streams nobody else uses and no others, and leaves no listener behind.",
 ["schedules", "histories", "programs"], "every interleaving of add and remove by several threads; every graph of streams and order of release",
 "the tests count references on one thread",
 ["ReferenceCounting.py", "Stream.py", "Model.py"], [("count guarded by a mutex", "ReferenceCounting.py:ReferenceCounted"), ("add_ref in constructor, remove_ref in close", "Stream.py")],
 ["about_to_delete", "ref_count", "listener_count"])

prop("C21", "Property and stream models show the latest value and notify changes",
 "Setting the value of a property model notifies (property_changed and on_value_changed, once, with the new value readable) exactly when it differs from the old one according to its comparison (None only equals None). A stream value model always shows the latest value of its stream. A function stream value model, once all evaluations have finished, shows the result of the latest function that succeeded, whichever order the evaluations finish in (never going back from a result to that of an earlier function), evaluates each function exactly once off the event loop thread, and notifies the change.",
 ["histories", "schedules"], "every sequence of values, and every completion order of the evaluations",
 "the tests await one evaluation at a time",
 ["Model.py"], [("value setter", "Model.py:PropertyModel"), ("run_in_executor", "Model.py:FuncStreamValueModel")],
 ["value", "property_changed_event", "on_value_changed"])

prop("C22", "Thread pool runs each queued function at most once, none after close",
 "Each function queued on an open thread pool runs at most once, and exactly once if the pool is not closed and is being run (by its threads, run_all or run_one); with run_all and run_one from a single thread, in the order queued. An exception in a function does not stop the others; close returns, even with functions queued or running, and when it has returned no function is running, none will start and the pool's threads end; queueing after close does nothing. A task executes its function at most once and calls its finished function once, when executed or canceled; cancel waits for an execution in progress.",
 ["schedules", "histories"], "every interleaving of queueing, running and closing by several threads",
 "the tests do not cover the thread pool",
 ["ThreadPool.py"], [("task lock, executed flag", "ThreadPool.py:ThreadPoolTask"), ("queue and closed flag", "ThreadPool.py:ThreadPool")],
 ["queued functions", "ThreadPool.close", "run_all", "run_one"])

prop("C23", "Thread dispatcher never loses a trigger and stops at close",
 "After every trigger made before close the function is invoked again, starting after the trigger, unless the dispatcher is closed first; invocations never overlap, start at least the minimum interval after the previous one ended, follow without delay when that interval is over, and number no more than the triggers. A waiting trigger returns only after an invocation which started after the call has ended (unless closed first), and always returns, even if the function raises or the dispatcher is closed meanwhile; close returns, no invocation happens after that and the dispatcher's thread ends.",
 ["schedules", "histories"], "every interleaving and timing of triggers, invocations and close",
 "the tests do not cover the dispatcher",
 ["ThreadPool.py"], [("thread event, triggered event and lock", "ThreadPool.py:ThreadDispatcher")],
 ["dispatched function", "trigger", "close"])

prop("C24", "Task queues and sets perform each task once; loop closing waits",
 "A task queue performs the tasks queued when perform_tasks is called exactly once each, in order, leaving tasks queued meanwhile for the next call, and clear_tasks discards without performing, both marking the tasks as done (a task performed only after it has been) so that waiting for the queue returns; with several threads adding and performing, no task is lost or performed twice. Performing the tasks of a task set performs exactly the latest task of each key added and not cleared before the call, once, without losing tasks added meanwhile. close_event_loop lets all outstanding tasks (including those in executors, and failing ones) finish before it closes the loop.",
 ["schedules", "histories"], "every interleaving of add, clear and perform, including tasks which add tasks",
 "the tests cover none or a few of these",
 ["Process.py"], [("queue size bound", "Process.py:TaskQueue.perform_tasks"), ("dict swapped under mutex", "Process.py:TaskSet"), ("gather of outstanding tasks", "Process.py:close_event_loop")],
 ["perform_tasks", "clear_tasks", "add_task", "clear_task", "close_event_loop"])

prop("C25", "Promise evaluates its function once and shares the value",
 "However many threads access a promise's value, its function is called at most once (again only after it raised), not before the first access to value, and every access returns the one result. opt_value and has_value never evaluate and show the result only once it exists.",
 ["schedules", "histories"], "every interleaving of accesses by several threads, with functions that are slow, re-entrant or raise",
 "the tests access a promise from one thread",
 ["Promise.py"], [("evaluation under lock", "Promise.py:Promise.value")],
 ["value", "opt_value", "has_value", "fn"])

prop("C26", "Registry lookups equal the set of registrations",
 "At any time the components found by type are exactly those registered for the type and not unregistered since, and get_component returns one of them with the highest priority (default 50), or None if there are none. Every register and unregister fires its event once with the component and the types concerned, unregistering without types removes all of them, registering again for the same type or unregistering from a type not registered is refused and changes nothing, a returned set is not affected by later changes, and firing existing registrations reports each component of the type once.",
 ["histories"], "every history of registrations and unregistrations with overlapping types and priorities, including ones made by listeners",
 "the tests register one or two components",
 ["Registry.py"], [("components by type and types by component", "Registry.py:ComponentManager")],
 ["get_components_by_type", "get_component", "component events"])

prop("C27", "Points, sizes and rectangles obey the algebra of the plane",
 "Points, sizes and rectangles convert to and from (y, x) / (height, width) / (origin, size) tuples and between each other's constructors without change, add and subtract componentwise (a rectangle plus or minus a point moves, a point minus a rectangle gives one of its size centered at the difference), compare by value, and edges, corners, center and slices of a rectangle agree with its origin and size (left/top inclusive, right/bottom exclusive for containment). Intersection contains exactly the points in both rectangles, union is the smallest rectangle around both, translating, insetting, rotating and mapping have their inverses, mapping takes corners to corners, and fitting to an aspect ratio or size gives the largest centered rectangle of that aspect ratio inside.",
 ["inputs"], "every point, size, rectangle, integer and float",
 "the tests compare a few fixed points and rectangles",
 ["Geometry.py"], [("IntPoint, IntSize, IntRect, FloatPoint, FloatSize, FloatRect, map_*, fit_to_*", "Geometry.py")],
 ["operators and properties of geometry classes"])

prop("C28", "Axis ticks cover the range with distinct, faithful labels",
 "For any finite range (either order, wide enough for ticks to be distinct floats) and number of ticks (two or more), linear ticks are evenly spaced by a division of 1, 2 or 5 times a power of ten, multiples of the division, strictly increasing, cover the range without a whole division to spare, are a limited number close to the requested, and their labels are distinct and parse back to the tick value within half a division. Logarithmic ticks are strictly increasing, cover the range, have one label each (distinct for base ten) giving the power of the base, with minor tick indices pointing at the ticks between decades, which are at the same, evenly spaced multiples of each decade; empty and non-finite ranges give a single tick or no error.",
 ["inputs"], "every pair of range ends, over all magnitudes and signs, and tick counts",
 "the tests check a few fixed ranges",
 ["Geometry.py"], [("make_pretty, make_pretty_range2", "Geometry.py"), ("LinearTicker, LogTicker", "Geometry.py")],
 ["values", "labels", "minimum", "maximum", "division", "minor_tick_indices"])

prop("C29", "List models stay consistent when used by several threads",
 "While one thread edits the source list (or, for a flattened list, several threads each the children of a source item of their own, and one the source list), and others set the filter, sort key and sort order, make groups of changes (also with item changes in them), mark the list changed, announce items as changed, and read the items of filtered, mapped and flattened lists and chains of them, no operation raises or deadlocks, and every reading is the contents of the list at one moment, also later on. The notifications, applied in order, replay to the contents at each point and have valid indexes, begins and ends of changes balance, and when all have finished the contents are those which the source, filter and sort at that time require, and stay so for further changes.",
 ["schedules", "histories"], "every interleaving of source edits, filter and sort changes, groups of changes and readings by several threads",
 "the tests use a single thread; a lost lock shows only in rare interleavings",
 ["ListModel.py"], [("update mutex", "ListModel.py:FilteredListModel._update_mutex"), ("change level counted under the mutex", "ListModel.py:FilteredListModel.begin_change, MappedListModel.begin_change"), ("child changes under the mutex", "ListModel.py:FlattenedListModel")],
 ["items", "item_inserted_event", "item_removed_event", "begin_changes_event", "end_changes_event"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
