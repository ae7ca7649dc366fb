"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'A sliced view is exactly the slice of the underlying sequence',
  "For every sequence and every slice bounds, a sliced view has the length of that slice, view[i] is the i-th element of that slice for every in-range positive or negative index, and any other index raises IndexError. Slicing a view yields a view that composes in the same way, and every access reflects the underlying sequence as it is at the time of the access.",
  ['inputs'], 'all sequences (any length), all slice bounds including negative/omitted/extended steps, all integer indices, views of views',
  'tests sample a six-element list with a few bounds; index arithmetic must be right for every length/start/stop/step',
  ['epsilon/view.py'], [('index translation through slice.indices/range', 'epsilon/view.py:SlicedView.__getitem__, __len__')],
  observe=['SlicedView.__getitem__', 'SlicedView.__len__'])

p('C02', 'Record construction binds every attribute exactly once, or refuses',
  "Constructing a record gives each declared attribute the positional value at its position, else the keyword value of its name, else its declared default, and sets nothing else. Too many positionals, a value given both positionally and by keyword, a missing value with no default, or an unknown keyword raises TypeError. Declaring a record with defaults that are not at the end of the attribute list, or that name no attribute, raises TypeError.",
  ['inputs', 'programs'], 'all record declarations (any number of names and trailing defaults) and all argument lists',
  'tests construct a handful of fixed records with 1-3 attributes',
  ['epsilon/structlike.py'], [('positional to keyword folding, default filling', 'epsilon/structlike.py:StructBehavior.__init__'), ('trailing-default check', 'epsilon/structlike.py:record')],
  observe=['StructBehavior.__init__', 'record'])

p('C03', 'Record repr is cycle-safe and leaves no residue',
  "repr of a record names the class and shows every declared attribute in order; an object whose repr is already in progress in the same context is abbreviated as Name(...) instead of being entered again, and any other object is entered. Once the outermost repr has finished, by return or by exception, no object stays marked as in progress, so a later repr is again complete.",
  ['inputs', 'histories', 'fault_sequences'], 'all object graphs, all nestings, all exceptions raised by attribute reprs',
  'tests check one self-reference and one nesting; none raises inside a nested repr and reuses the object afterwards',
  ['epsilon/structlike.py'], [('active table with try/finally', 'epsilon/structlike.py:_RecursiveReprer.recursiveRepr'), ('per-context reprer', 'epsilon/structlike.py:_contextualize')],
  observe=['StructBehavior.__repr__'])

p('C04', 'Only methods exposed by this exposer for this key can be retrieved',
  "Exposer.get(obj, key) returns, bound to obj, only something that was exposed by that same exposer under that same key and that obj's class has under some name with no more-derived class redefining that name. If the key was never exposed, or nothing exposed under it is in obj's classes, or an exposed method found first is overridden by an unexposed one, it raises MethodNotExposed; an exposed method that is not overridden is always retrievable as long as no other method exposed under that key is.",
  ['inputs', 'programs', 'histories'], 'all class hierarchies (any MRO length and class contents), all exposers, keys and exposure histories',
  'tests use fixed two-level hierarchies; the guarantee is a security boundary over arbitrary hierarchies',
  ['epsilon/expose.py'], [('MRO walk with seen names', 'epsilon/expose.py:Exposer.get'), ('registration', 'epsilon/expose.py:Exposer.expose')],
  state=[('_exposed', 'key -> list of functions exposed under it', 'epsilon/expose.py:Exposer.__init__')],
  observe=['Exposer.get'])

p('C05', 'Caseless behaves as its lower-cased text, consistently',
  "Every comparison, containment, prefix/suffix, counting and searching operation on a Caseless gives the result of the same operation on the lower-cased texts of both operands, including optional start/end bounds and tuples of prefixes. Equal values hash equally, equality and ordering agree with each other, and wrapping a Caseless again keeps the same text; length, indexing, iteration and case conversion give the wrapped text's own results.",
  ['inputs'], 'all pairs of strings (str or Caseless), all bounds',
  'tests enumerate a few words; laws such as hash/equality agreement quantify over all pairs',
  ['epsilon/caseless.py'], [('delegation to lower()', 'epsilon/caseless.py:Caseless')],
  observe=['Caseless'])

p('C06', 'Lazy and required attributes: computed once, kept per instance',
  "A remembered attribute calls its creation function on first access with the instance, and every later access on that instance returns that same object without calling it again, whatever the value is; different instances, and attributes of different names (the prefix _remembered_ being reserved), never share values. A required attribute raises AttributeError until a value is set on that instance and afterwards yields exactly the value last set. A one-shot attribute definition routes get, set and delete to its own definitions and rejects the ones it does not define with AttributeError.",
  ['inputs', 'histories'], 'all values (including None and false values), all sequences of accesses/sets over any instances',
  'tests access truthy values twice on one instance',
  ['epsilon/remember.py', 'epsilon/descriptor.py'], [('per-instance cache slot', 'epsilon/remember.py:remembered.__get__'), ('required attribute', 'epsilon/descriptor.py:requiredAttribute'), ('descriptor protocol', 'epsilon/descriptor.py:attribute')],
  observe=['remembered.__get__', 'attribute.__get__/__set__/__delete__'])

p('C07', "Modal methods always run the current mode's implementation",
  "Calling a modal method on an instance runs, with that instance as self, the implementation that the mode currently named by the instance's mode attribute defines in the class's body, and raises AttributeError when that mode defines none, or on access through the class. Instances start in the declared initial mode, under the declared mode attribute; a transition runs the old mode's exit hook in the old mode, then the new mode's enter hook in the new mode, each once.",
  ['inputs', 'histories', 'programs'], 'all mode tables, all mode attribute names, all sequences of transitions',
  'tests use the default attribute name and never call transitionTo',
  ['epsilon/modal.py'], [('dispatch', 'epsilon/modal.py:ModalMethod.__get__'), ('class construction', 'epsilon/modal.py:ModalType.__new__'), ('transition', 'epsilon/modal.py:Modal.transitionTo')],
  observe=['ModalMethod.__get__', 'Modal.transitionTo'])

p('C08', 'A pending event fires every current waiter exactly once',
  "Firing a pending event (with a result or a failure) fires each Deferred handed out since the previous firing exactly once, with exactly that result or failure, in the order they were handed out. Deferreds handed out during or after a firing are not fired by it and wait for the next one, and none is ever fired twice.",
  ['inputs', 'histories', 'schedules'], 'all numbers of waiters, all results, all interleavings of waiting and firing including re-entrant ones',
  'there is no test of this module',
  ['epsilon/pending.py'], [('swap of the listener list before firing', 'epsilon/pending.py:PendingEvent.callback, errback')],
  state=[('listeners', 'Deferreds not yet fired', 'epsilon/pending.py')],
  observe=['PendingEvent.deferred', 'PendingEvent.callback', 'PendingEvent.errback'])

p('C09', 'react runs the reactor until main is done and stops it once',
  "react calls main once with the reactor and the given arguments and runs the reactor once; when main's Deferred fires, with a result or a failure, the reactor is asked to stop exactly once, from a running reactor, unless it is already shutting down, in which case it is not asked at all. A failure is logged and does not propagate.",
  ['schedules', 'fault_sequences'], 'every order of Deferred firing, reactor start, and shutdown; success and failure; any argument list',
  'tests cover a fixed set of orders with one fake reactor',
  ['epsilon/react.py'], [('stopping flag and callWhenRunning', 'epsilon/react.py:react')],
  observe=['react'])

p('C10', 'A routed box reaches exactly the receiver bound to its route',
  "A box received by a started router is delivered exactly once, to the receiver bound to the box's route name (the receiver bound to None when the box has no route), with the route key removed and every other key and value unchanged; no other receiver sees it. A box for an unbound or unbound-again name is delivered to nobody and raises KeyError; binding, and unbinding, one name never affects delivery for any other name.",
  ['inputs', 'histories'], 'all sets of bound routes, all boxes, all histories of bind/unbind/receive',
  'tests bind two routes and send one box to each',
  ['epsilon/amprouter.py'], [('demultiplexing', 'epsilon/amprouter.py:Router.ampBoxReceived'), ('binding', 'epsilon/amprouter.py:Router.bindRoute, Route.unbind')],
  state=[('_routes', 'route name -> Route, once started', 'epsilon/amprouter.py:Router')],
  observe=['Router.ampBoxReceived', 'Router.bindRoute', 'Route.unbind'])

p('C11', 'Boxes sent through a route carry exactly its remote name',
  "A box sent through a connected route is passed to the router's sender exactly once, with the route key set to the route's current remote name (or no route key added when that name is None) and every other key and value unchanged. Sending through a route that was never connected raises RouteNotConnected and sends nothing; errors reported through a route reach the router's sender unchanged.",
  ['inputs', 'histories'], 'all boxes, all remote names, all connect/send histories',
  'tests send one fixed box',
  ['epsilon/amprouter.py'], [('route stamping', 'epsilon/amprouter.py:Route.sendBox'), ('connection', 'epsilon/amprouter.py:Route.connectTo')],
  observe=['Route.sendBox', 'Route.connectTo', 'Route.unhandledError'])

p('C12', 'Route receivers start once, only when both ends are ready, and all stop',
  "The receiver of a route that is connected once is started exactly once, with that route as its sender, at the moment both its router has been started and the route has been connected, in whichever order these happen, and never before; this also holds when receivers bind, connect or unbind routes while the router is starting or stopping. When the router stops, every receiver bound at that moment is stopped exactly once with the reason given.",
  ['inputs', 'histories', 'schedules'], 'any number of routes in any mix of connected/unconnected, any interleaving of bind, connect, start, stop, including re-entrant calls made by receivers',
  'tests have one route per router and passive receivers',
  ['epsilon/amprouter.py'], [('deferred start', 'epsilon/amprouter.py:Route.connectTo, Router.startReceivingBoxes'), ('stop', 'epsilon/amprouter.py:Router.stopReceivingBoxes')],
  state=[('_unstarted', 'routes bound before start', 'epsilon/amprouter.py:Router')],
  observe=['Router.startReceivingBoxes', 'Route.connectTo', 'Router.stopReceivingBoxes'])

p('C13', 'Generated route identifiers never collide',
  "A route identifier generated by a router is a text string different from every identifier it generated before and not the name of any route currently bound on that router, whether that name was generated or chosen by the application. Binding a route without a name therefore never replaces an existing route.",
  ['inputs', 'histories'], 'all histories of explicit and automatic binds',
  'the test draws ten identifiers from a fresh router with no explicit names',
  ['epsilon/amprouter.py'], [('counter', 'epsilon/amprouter.py:Router.createRouteIdentifier')],
  observe=['Router.createRouteIdentifier', 'Router.bindRoute'])

p('C14', 'Password challenge-response accepts exactly the right password',
  "For every challenge and password the response computed by the client is accepted by the server's credentials for that challenge and that password, given as text or bytes, and a response is accepted only if it equals the SHA-1 digest of challenge, nonce and password joined by single spaces. Every login attempt is answered with a fresh random 16-byte challenge, and the credentials handed to the portal carry exactly the most recently issued challenge and its username.",
  ['inputs', 'histories'], 'all challenges, nonces, passwords, and sequences of login commands',
  'tests use one fixed password and challenge',
  ['epsilon/ampauth.py'], [('digest', 'epsilon/ampauth.py:_calcResponse'), ('check', 'epsilon/ampauth.py:_AMPUsernamePassword.checkPassword'), ('challenge', 'epsilon/ampauth.py:CredReceiver.passwordLogin')],
  observe=['checkPassword', 'PasswordChallengeResponse.determineFrom', 'CredReceiver.passwordLogin', 'CredReceiver.passwordChallengeResponse'])

p('C15', 'A one-time pad authenticates at most once',
  "A one-time pad that is registered yields its avatar identifier on its first use and is invalid from then on; a pad that is unknown or already used is refused with UnauthorizedLogin. Neither outcome affects any other pad.",
  ['inputs', 'histories'], 'all pad tables (any avatar identifiers, including false ones) and all sequences of attempts',
  'tests try one pad once and one unknown pad',
  ['epsilon/ampauth.py'], [('pop on use', 'epsilon/ampauth.py:OneTimePadChecker.requestAvatarId')],
  state=[('pads', 'valid pads -> avatar id', 'epsilon/ampauth.py:OneTimePadChecker')],
  observe=['OneTimePadChecker.requestAvatarId'])

p('C16', 'Every avatar logged in over a connection is logged out exactly once',
  "For a connection on which one login is attempted: the connection starts delivering boxes to an avatar only after the portal accepted the credentials presented on it, and then with the connection's own box sender; a refused login leaves the connection unauthenticated. When the connection is lost the avatar's logout is called exactly once, and it is not called if no login succeeded; a login that completes only after the connection was lost is logged out too.",
  ['schedules', 'histories', 'fault_sequences'], 'all orders of login success, login failure, and connection loss, with synchronous or asynchronous portals',
  'tests use synchronous portals and lose the connection after login',
  ['epsilon/ampauth.py'], [('login', 'epsilon/ampauth.py:CredReceiver._login'), ('logout', 'epsilon/ampauth.py:CredReceiver.connectionLost')],
  state=[('logout', 'pending logout callable or None', 'epsilon/ampauth.py:CredReceiver')],
  observe=['CredReceiver._login', 'CredReceiver.connectionLost'])

p('C17', 'Line framing is independent of how bytes are chunked',
  "However a byte stream is cut into chunks, a line receiver in line mode delivers exactly the delimiter-terminated lines of the stream, in order, without their delimiters and each once, and keeps exactly the unterminated remainder. After a switch to raw mode every byte following the line that caused the switch is delivered as raw data in order, and switching back to line mode with leftover bytes resumes line delivery at the first of them; once the transport is disconnecting nothing more is delivered.",
  ['inputs', 'schedules', 'histories'], 'all byte streams and all chunkings, including delimiters split across chunks; all points of mode switching and disconnection',
  'tests only feed whole messages through a loopback',
  ['epsilon/liner.py'], [('incremental scan', 'epsilon/liner.py:LineReceiver.dataReceived'), ('mode switches', 'epsilon/liner.py:LineReceiver.setLineMode, setRawMode')],
  state=[('buffer', 'bytes received but not yet delivered', 'epsilon/liner.py:LineReceiver')],
  observe=['LineReceiver.lineReceived', 'LineReceiver.rawDataReceived'])

p('C18', 'Juice boxes survive the wire unchanged',
  "A box of text keys in normal form (lower case, underscores for dashes, no Python keyword) and text values, including values with line breaks, colons, non-ASCII text and an optional non-empty body, is parsed from its serialized bytes back to an equal box, however the bytes are chunked. Consecutive boxes on one stream are separated exactly: the bytes of one never leak into the next.",
  ['inputs', 'schedules'], 'all boxes, all chunkings of the resulting byte stream, all sequences of boxes',
  'tests round-trip eight short ASCII boxes, each in one chunk',
  ['epsilon/juice.py', 'epsilon/liner.py'], [('serialisation', 'epsilon/juice.py:JuiceBox.serialize'), ('header parsing', 'epsilon/juice.py:parseJuiceHeaders, normalizeKey'), ('body framing', 'epsilon/juice.py:Juice.lineReceived, rawDataReceived')],
  observe=['JuiceBox.serialize', 'Juice.juiceBoxReceived'])

p('C19', 'Each juice request is resolved exactly once, by its own answer',
  "Every request that expects an answer is sent with a tag different from every other request of the connection, and its Deferred fires exactly once: with the answer or error bearing that tag, or with the connection-loss reason if the connection is lost first. An answer or error for one request never affects any other; after connection loss no request is left pending and new requests fail at once without sending anything.",
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all interleavings of requests, answers, errors and connection loss, any number outstanding',
  'tests send one or two requests and answer them in order',
  ['epsilon/juice.py'], [('tag table', 'epsilon/juice.py:JuiceParserBase.sendBoxCommand, _nextTag'), ('resolution', 'epsilon/juice.py:JuiceParserBase.juiceBoxReceived'), ('loss', 'epsilon/juice.py:JuiceParserBase.failAllOutgoing, Juice.connectionLost')],
  state=[('_outstandingRequests', 'tag -> Deferred', 'epsilon/juice.py:JuiceParserBase')],
  observe=['JuiceParserBase.sendBoxCommand', 'JuiceParserBase.juiceBoxReceived', 'Juice.connectionLost'])

p('C20', 'Each juice command asked gets exactly one reply, with its own tag',
  "A command box that asks for an answer is replied to exactly once, with the tag it was asked with: with the responder's answer, or with an error carrying the error's declared code and description, or with the UNHANDLED code for an unknown command or an undeclared error; after an UNHANDLED reply, and after an error declared fatal, the connection is closed. A command box that does not ask is never replied to, a command is run only in a namespace it is declared for, and nothing is sent once the transport is gone.",
  ['inputs', 'histories', 'fault_sequences'], 'all command boxes, all responder outcomes (value, declared error, fatal error, other exception; synchronous or later), all namespaces',
  'tests cover one success and one declared error',
  ['epsilon/juice.py'], [('reply', 'epsilon/juice.py:JuiceParserBase.juiceBoxReceived'), ('dispatch', 'epsilon/juice.py:DispatchMixin.dispatchCommand, lookupFunction, _auto')],
  observe=['JuiceParserBase.juiceBoxReceived', 'DispatchMixin.dispatchCommand'])

p('C21', 'Juice never writes to a locked stream and keeps TLS buffering in order',
  "Once a connection is locked for a protocol switch no box is written and no command that wants an answer is run; the protocol can be switched only once, the new protocol is connected exactly once, and from then on all received bytes, in order, go to it. Boxes sent between preparing and starting TLS are withheld and written exactly once, in order, only after TLS has been started; starting TLS again on an authenticated connection is refused.",
  ['histories', 'schedules'], 'all histories of send, lock, switch, prepare/start TLS, receive',
  'tests perform one switch and never use TLS',
  ['epsilon/juice.py'], [('lock', 'epsilon/juice.py:Juice._lock, sendPacket, juiceBoxReceived'), ('switch', 'epsilon/juice.py:Juice._switchTo, rawDataReceived'), ('TLS', 'epsilon/juice.py:Juice.prepareTLS, startTLS')],
  observe=['Juice.sendPacket', 'Juice.startTLS', 'Juice._switchTo'])

p('C22', 'Juice argument lists convert to strings and back without loss',
  "For every declared argument list and every assignment of legal values, converting the values to a box and back yields the same values: integers, booleans, strings, text and lists of them are restored exactly, an absent optional argument comes back as None and puts nothing in the box, and a missing required argument is an error. Conversion uses only the declared arguments and leaves the caller's objects and boxes unmodified.",
  ['inputs', 'programs'], 'all argument declarations, all values',
  'tests pass one integer and one string through',
  ['epsilon/juice.py'], [('argument types', 'epsilon/juice.py:Argument and subclasses'), ('box conversion', 'epsilon/juice.py:objectsToStrings, stringsToObjects')],
  observe=['objectsToStrings', 'stringsToObjects'])

p('C23', 'ISO 8601 formatting and parsing of times are inverse',
  "For every time that starts on a boundary of its resolution (microsecond, second, minute, hour, day, month or year), every fixed whole-minute timezone (east or west, any minutes), and every choice of delimiters, parsing the ISO 8601 text a time formats to gives back an equal time. A calendar, ordinal or week date with or without a time of day (fractions to six digits) denotes exactly the day and time its parts name, with the resolution of its last part: with a timezone or Z, the instant that offset implies whatever default is passed; without one, in the passed timezone or UTC. Date and time parts out of range, and text of any other form, raise ValueError.",
  ['inputs'], 'all instants, microseconds, timezone offsets, delimiter choices and resolutions',
  'tests format one reference instant in three whole-hour timezones',
  ['epsilon/extime.py'], [('formatter', 'epsilon/extime.py:Time.asISO8601TimeAndDate'), ('parser', 'epsilon/extime.py:Time.fromISO8601TimeAndDate')],
  observe=['Time.asISO8601TimeAndDate', 'Time.fromISO8601TimeAndDate'])

p('C24', 'Time converts to and from datetime, timestamp and struct without drift',
  "For every instant and every fixed-offset timezone, converting a time to a datetime (aware or naive), a struct_time, or a POSIX timestamp and back in the same timezone gives an equal time, up to whole seconds for struct_time; a POSIX timestamp is the number of seconds since the epoch, and an aware datetime denotes the same instant. Timestamps are exact to the microsecond for the years 1700 to 2200 (beyond, to the precision of a float). A time of day-or-coarser resolution ignores the timezone asked for: its fields are the same in every timezone.",
  ['inputs'], 'all instants, all fixed offsets, all resolutions',
  'tests use one reference instant and two timezones',
  ['epsilon/extime.py'], [('conversions', 'epsilon/extime.py:Time.fromDatetime, asDatetime, asNaiveDatetime, fromStructTime, asStructTime, fromPOSIXTimestamp, asPOSIXTimestamp')],
  observe=['Time.from*/as*'])

p('C25', 'Times are totally ordered instants with consistent arithmetic',
  "Equality and ordering of times are those of the instants they start at, regardless of resolution, and a time is never equal to a non-time and cannot be ordered against one. Adding or subtracting an interval moves the instant by exactly that interval, subtracting two times gives exactly the interval between them, and containment holds exactly when the other's whole period lies in this one's; the bounds of a time, in any timezone, enclose the time's period in UTC and in that timezone.",
  ['inputs'], 'all pairs of times, all resolutions, all intervals, all fixed offsets',
  'tests compare a few times for equality only',
  ['epsilon/extime.py'], [('comparison', 'epsilon/extime.py:Time.__cmp__, __eq__'), ('arithmetic', 'epsilon/extime.py:Time.__add__, __sub__'), ('containment and bounds', 'epsilon/extime.py:Time.__contains__, getBounds')],
  observe=['Time comparison operators', 'Time.getBounds'])

p('C26', 'Human date phrases resolve to the documented instant for every now',
  "A weekday name denotes the next such day, one to seven days after today; today, tomorrow and yesterday denote that calendar day; each with one-day resolution and midnight UTC. A clock time, with or without am/pm (12 am is midnight, 12 pm is noon), or noon/midnight, denotes its next occurrence not before the current minute (hour, for noon/midnight) in the given timezone, with one-minute resolution; now denotes the current instant; the current time passed as now may be any instant away from the ends of the calendar; clock times that do not exist are rejected with ValueError.",
  ['inputs', 'configurations'], 'all values of now, all clock times, all fixed timezones',
  'tests fix now to one Monday afternoon',
  ['epsilon/extime.py'], [('phrase handlers', 'epsilon/extime.py:Time._fromWeekday, _fromTodayOrTomorrow, _fromTime, _fromNoonOrMidnight, _fromNow, fromHumanly')],
  observe=['Time.fromHumanly'])

p('C27', 'RFC 2822 dates round-trip and invalid fields are clamped to the nearest',
  "For every time of a resolution finer than a day in the years 1000 to 9999 and every fixed whole-minute timezone, parsing the RFC 2822 text a time formats to gives back the same time to the second, and the text shows the right weekday, month and signed offset. Sanitizing a time tuple replaces each of its first six fields by the nearest value in that field's range and changes nothing else; text that is not a date raises ValueError.",
  ['inputs'], 'all instants, offsets and tuples',
  'tests format one instant in three whole-hour timezones',
  ['epsilon/extime.py'], [('formatter', 'epsilon/extime.py:Time.asRFC2822'), ('parser', 'epsilon/extime.py:Time.fromRFC2822'), ('clamping', 'epsilon/extime.py:sanitizeStructTime'), ('offset splitting', 'epsilon/extime.py:_timedeltaToSignHrMin')],
  observe=['Time.asRFC2822', 'Time.fromRFC2822', 'sanitizeStructTime'])

p('C28', "A benchmark child's outcome and statistics are reported faithfully",
  "When a benchmark child process ends its Deferred fires exactly once: with its status and all output in order of arrival if it ended normally, with a timeout error if it was killed for inactivity, with the exit code, signal, status and output otherwise; the inactivity timer is then cancelled. A disk statistics line yields the device name and each counter in its own field, and reported results are the differences after minus before of the matching counters, or absent when the counters were unavailable. On the backchannel every START byte begins and every STOP byte ends the measurement and is answered by the same byte, whatever the chunks, and any other byte asks the child to quit. The device whose counters are used is the one of the innermost mount around the working directory, and a run is reported as an error exactly when the child failed or wrote to standard error.",
  ['inputs', 'histories'], 'all output sequences, all ways of ending, all counter values',
  'tests use one output sequence per ending and one set of counters',
  ['epsilon/scripts/benchmark.py'], [('outcome', 'epsilon/scripts/benchmark.py:BasicProcess.processEnded, childDataReceived'), ('parsing', 'epsilon/scripts/benchmark.py:parseDiskStatLine'), ('report', 'epsilon/scripts/benchmark.py:formatResults')],
  observe=['BasicProcess.processEnded', 'parseDiskStatLine', 'formatResults'])

p('C29', 'A required hotfix is installed exactly when its fault is present, once',
  "Requiring a known hotfix installs it if and only if the running Twisted shows the fault that hotfix repairs, whatever other faults it has, and at most once per process however often it is required; no other hotfix is installed. Requiring an unknown package and name raises NoSuchHotfix with both and changes nothing. A hotfix whose installation raises is not taken for installed: the exception propagates and the next requirement tries again.",
  ['inputs', 'histories', 'fault_sequences'], 'all pairs of names, all sets of hotfixes required before, every combination of faults, failing installations',
  'the tests only require two hotfixes that the installed Twisted does not need',
  ['epsilon/hotfix.py'], [('detection and installation', 'epsilon/hotfix.py:require'), ('record', 'epsilon/hotfix.py:_alreadyInstalled')],
  state=[('_alreadyInstalled', 'pairs dealt with in this process', 'epsilon/hotfix.py')],
  observe=['hotfix.require'])

p('C30', 'Both ends of a juice connection agree on the version negotiated',
  "Asked for versions in order of preference, a juice peer answers with the first of them that it supports and sets its own protocol version to it, no earlier than the answer is written; when it supports none, it answers with an error and its version stays. Asking for a version this side does not support is refused and sends nothing; otherwise exactly that version is asked for, and this side's version becomes the one answered, which is also the request's result, when the answer arrives and not before; when the request fails, the version stays and so does the failure.",
  ['inputs', 'fault_sequences'], 'all lists of versions asked for and supported, every outcome of the request',
  'one test negotiates the only version there is',
  ['epsilon/juice.py'], [('choice', 'epsilon/juice.py:Juice.command_NEGOTIATE'), ('request', 'epsilon/juice.py:Juice.renegotiateVersion'), ('taking effect', 'epsilon/juice.py:NegotiateBox.sendTo')],
  state=[('protocolVersion', 'the version in force on this side', 'epsilon/juice.py:Juice')],
  observe=['Juice.command_NEGOTIATE', 'Juice.renegotiateVersion', 'NegotiateBox.sendTo'])

p('C31', 'The effect of a service lasts exactly while it runs',
  "A SignalService leaves the process's signal handlers alone until it is started; while it runs, each signal it was given has the handler it was given, and stopping it puts back, for each of these signals and no other, exactly the handler that was in force when it was started, whatever happened to the handlers and to the mapping it was given in between (handlers which Python itself can install). A SchedulingService runs what is added to it only while it runs: its one cooperator is not started before the service, is started and stopped once with it, gets each added iterator once, and that iterator's Deferred is handed out. Both say truthfully whether they are running. iterateInReactor gives the iterator to the reactor's cooperator and hands out its Deferred, whatever the delay.",
  ['inputs', 'histories'], 'all sets of signals and handlers, any change in between; every order of adding, starting and stopping',
  'the modules have no tests',
  ['epsilon/spewer.py', 'epsilon/cooperator.py'], [('start', 'epsilon/spewer.py:SignalService.startService'), ('stop', 'epsilon/spewer.py:SignalService.stopService'), ('scheduling', 'epsilon/cooperator.py:SchedulingService'), ('global', 'epsilon/cooperator.py:iterateInReactor')],
  state=[('oldsigmap', 'the handlers replaced', 'epsilon/spewer.py:SignalService')],
  observe=['SignalService.startService', 'SignalService.stopService', 'SchedulingService.addIterator', 'SchedulingService.startService', 'SchedulingService.stopService', 'iterateInReactor'])

p('C32', 'certcreate writes exactly the certificate it was asked for',
  "createSSLCertificate makes one new key, signs with it one certificate whose subject has exactly the country, state, city, organization, unit, host name and e-mail address given and whose serial number is the one given, writes that certificate (PEM) and nothing else over the named file, closes it, and returns it; it describes the certificate on standard output afterwards unless told to be quiet, and then prints nothing. When no certificate can be made the file is not touched, and failures are reported to the caller. main takes every option from the arguments given (the process's own only when none are given), long or short, uses the documented default for each one left out, and exits with a message, having made nothing, when the arguments are not understood.",
  ['inputs', 'fault_sequences'], 'all field values, serial numbers, file names and option combinations; failing key generation and files',
  'the script has no tests',
  ['epsilon/scripts/certcreate.py'], [('certificate', 'epsilon/scripts/certcreate.py:createSSLCertificate'), ('command line', 'epsilon/scripts/certcreate.py:main')],
  observe=['certcreate.createSSLCertificate', 'certcreate.main'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
