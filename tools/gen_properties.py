"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mechanism)]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

p("C01", "Legacy XOR/TCP: every query gets exactly its own whole response",
  "Over the legacy encrypted TCP connection each request reaches the device as one length-prefixed, autokey-XOR encrypted message that decrypts to the request, and the caller receives exactly the decoded reply to its own request, however the reply bytes are split, delayed, truncated or cut off. After any failure, timeout or cancellation the connection is discarded, so a stale, partial or foreign reply is never returned to a later query, and a broken connection is re-established on a later attempt. Refused/unreachable hosts fail at once, other connection problems are retried within the retry budget, and every failure surfaces as a library exception.",
  ["schedules", "fault_sequences", "inputs"],
  "all requests (any JSON text and size), all segmentations/delays of the byte stream, all connection-level faults and caller cancellations at any await point, any sequence of queries on one connection",
  "Tests use mocked stream readers with one or two fixed chunkings and one error per test; the guarantee quantifies over segmentation, fault position, cancellation instant and the history of earlier queries on the same socket.",
  ["kasa/transports/xortransport.py", "kasa/protocols/iotprotocol.py"],
  ["XorTransport.send / _execute_send closes the stream on any error or BaseException", "XorEncryption autokey cipher with 4 byte big-endian length prefix", "IotProtocol retry loop"],
  observe_at=["in-memory TCP server below asyncio.open_connection", "IotProtocol.query boundary"], hook_needed=None)

p("C02", "KLAP: authenticated sessions whose messages the device can verify",
  "For both KLAP versions every request a device receives is encrypted and signed under the session negotiated by the latest completed handshake, carries a sequence number that is the previous one plus one within that session, and the caller receives the decrypted reply to that request. A new handshake is done exactly when there is no session, the session's lifetime (device timeout minus the 20 minute safety margin, 24 h by default) has elapsed, the device answered 403, or the transport was reset/closed after an error; otherwise the session is reused. The device's challenge must match the configured credentials, the known default credentials or blank credentials, else an authentication error is raised and no request is sent.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "all credentials (configured, default, blank, hash only), protocol versions, seeds and initial sequence numbers, request texts, and interleavings of queries with expiry, HTTP errors, 403, garbage replies and disconnects",
  "Unit tests mock the HTTP post with the library's own cipher class and check single steps; interop with an independent device implementation over long histories and all seeds is not exercised.",
  ["kasa/transports/klaptransport.py", "kasa/transports/klaptransportv2.py", "kasa/httpclient.py", "kasa/credentials.py"],
  ["perform_handshake1/2", "KlapEncryptionSession key/iv/sig derivation and seq counter", "session expiry bookkeeping", "session cookie handling"],
  observe_at=["independent KLAP device simulator behind the HTTP session"], hook_needed=None)

p("C03", "AES passthrough: handshake, login and token follow the device's session",
  "A device speaking the RSA-handshake AES protocol receives a valid handshake (with the configured key pair; one is generated only when none is configured, and kept in the configuration), then a login with the configured (or, only after a login failure, default) credentials in the configured login version, then only requests encrypted under that session, sent to the token URL with the session cookie; callers receive the decrypted reply to their own request. The session is reused until it expires (device timeout minus the 20 minute safety margin, 24 h by default), is reset after an error, or the device reports an authentication error, after which the next request performs a fresh handshake and login. Each device error code is reported as retryable, authentication or device error according to the library's published error classes, unknown codes included.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "all credentials/login versions/cached key pairs, session histories with expiry, error codes at handshake/login/passthrough/inner level, HTTP statuses and undecryptable replies",
  "Tests drive a mock that reuses the library's own session objects for one step at a time; long session histories with faults against an independent device are not covered.",
  ["kasa/transports/aestransport.py", "kasa/httpclient.py", "kasa/exceptions.py"],
  ["TransportState machine", "try_login/perform_login fall back", "AesEncyptionSession", "_handle_response_error_code"],
  observe_at=["independent AES device simulator behind the HTTP session"], hook_needed=None)

p("C04", "HTTPS camera and vacuum transports follow their login and tag protocols",
  "A camera speaking the TLS AES protocol accepts every library message: the two-step nonce login uses the right user and password digest (sha256 or md5), the library verifies the device's confirmation and otherwise raises an authentication error, and every later message in a session carries a valid tag and a sequence number one greater than the previous one. Cameras offering only the plain hashed login are served unencrypted, a lost session (HTTP 500) is retried with a fresh login, blocked devices and bad credentials are reported as such, and after a reset nothing of the old session is used. Devices using the plain HTTPS token login receive one valid login and then only requests to the token URL until the session is reset.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "all credentials/hashes, camera login modes, nonces, start sequence numbers, and histories mixing queries with 500s, error codes, blocked state, wrong passwords and resets",
  "Tests mock the camera with the library's own helper functions and isolated steps; an independent device model over histories is not exercised.",
  ["kasa/transports/sslaestransport.py", "kasa/transports/ssltransport.py", "kasa/httpclient.py"],
  ["perform_handshake1/2, try_perform_less_secure_login", "generate_tag / Seq header", "TransportState machine and reset"],
  observe_at=["independent camera and vacuum simulators behind the HTTP session"], hook_needed=None)

p("C05", "Queries are serialised, and retried only within the documented budget",
  "On one protocol object at most one query is talking to the device at any moment and concurrent callers each get the result of their own query. A query makes at most 1 + retry_count attempts; connection errors, timeouts and retryable errors are retried (timeouts, and for SMART also retryable errors, after a one second pause, with the transport session reset first except after plain connection errors), while authentication errors and all other library errors are raised immediately without another attempt. When attempts are exhausted the last error is raised, and a failed or cancelled query never blocks or corrupts the following ones.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of per-attempt outcomes (success, each error class, cancellation), all retry counts, all interleavings of concurrent queries on one protocol, for IOT, SMART and camera protocols",
  "Tests check a few fixed error sequences on mocked transports, always without concurrency or virtual time; the property ranges over all outcome sequences and schedules.",
  ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  ["_query_lock", "_query retry loops", "transport.reset on errors", "BACKOFF_SECONDS_AFTER_TIMEOUT"],
  observe_at=["recording transport under the public protocol object, virtual clock"], hook_needed=None)

p("C06", "A multi-method SMART query equals asking each method individually",
  "Querying several methods at once returns, for every requested method, exactly the result or error the device gives for that method with those parameters, no matter how the library splits the query into batches, in which order the device answers, or which methods are omitted from or fail in a batched reply. A device that cannot handle a batch (undecodable or unknown-error reply) is asked one method at a time from then on, every requested method with its parameters reaches the device, and no method is executed that was not asked for. With a single method a device error is raised; with several methods the failing ones are reported by an error code in place of their result without affecting the others.",
  ["inputs", "fault_sequences", "configurations"],
  "all sets of methods with parameters, batch sizes, reply orders, omitted methods, per-method error codes (known and unknown), whole-batch failures, for SMART and camera protocols",
  "Tests cover a few hand picked dictionaries with a fixed batch size; completeness ranges over request sets, batch boundaries and device misbehaviour.",
  ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  ["_execute_multiple_query batching and re-query", "FORCE_SINGLE_REQUEST", "_handle_response_error_code"],
  observe_at=["method-level SMART device simulator that logs every executed method"], hook_needed=None)

p("C07", "Paged lists are returned complete, in order and without duplicates",
  "For every list the device serves in pages, the caller receives the concatenation of all pages in order: every element exactly once, independent of page size, list length, batch size, the number of lists and plain methods in one query, and of batched replies that omit or refuse methods; everything else of the reply is unchanged. The library requests each following page from the index of the first element it does not have yet and stops when the announced total is reached. A page that fails fails the query instead of returning a partial list as complete, and a list query never loops for ever, even when the device returns empty pages.",
  ["inputs", "configurations", "fault_sequences"],
  "all list lengths, page sizes (also varying), batch sizes, numbers of lists per query, list names, failing and empty pages, SMART and camera protocols",
  "Existing tests page one or two lists with fixed sizes; the boundary conditions (sum multiple of page, empty, batch splits, single-step batches, child lists) are a large product space.",
  ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  ["_handle_response_lists", "_get_list_request", "start_index/sum"],
  observe_at=["paging device simulator"], hook_needed=None)

p("C08", "Requests for a child device reach exactly that child",
  "Every query made through a child device (strip socket, hub sensor, fan/light child, camera on a hub) executes on the device only for that child and its answer, errors included, is returned to that child alone; commands on the parent never carry a child address. For each child, state read after an update is that child's own state, and switching one child changes no sibling.",
  ["inputs", "histories", "schedules"],
  "all parents with any number of children, all methods and parameters, single and multi-method child queries, child-level and wrapper-level errors, interleaved and concurrent commands to siblings",
  "Tests use fixtures whose fake protocols share code with the wrapper format; mixed histories across siblings and error positions are not covered.",
  ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/iot/iotstrip.py", "kasa/smart/smartchilddevice.py"],
  ["_ChildProtocolWrapper", "_ChildCameraProtocolWrapper", "IotStripPlug context child_ids"],
  observe_at=["device simulators with independent children"], hook_needed=None)

p("C09", "Whatever a device answers, failures surface as the documented exceptions",
  "When a device closes connections, times out, answers any HTTP status, sends bytes that are not the expected message, or returns any error code, a query, update or connect either succeeds or raises the library's base exception or one of its documented subclasses (the contents of a well-formed, successful answer are trusted). Error codes map to the documented class: authentication codes to the authentication error, other device codes to the device error carrying that code (unknown codes as an internal unknown error); no answer within the timeout surfaces as the timeout error (the legacy camera transport reports every failure as a retryable device error). No failure makes the library hang or return made-up data, and once the device answers correctly again the same objects work again.",
  ["inputs", "fault_sequences"],
  "all byte-level and message-level device replies at each protocol step, all error codes, all HTTP statuses, for every transport/protocol combination",
  "Tests check a handful of failure values per transport; hostile replies form an unbounded input space.",
  ["kasa/httpclient.py", "kasa/exceptions.py", "kasa/transports/klaptransport.py", "kasa/transports/aestransport.py", "kasa/transports/sslaestransport.py", "kasa/transports/ssltransport.py", "kasa/transports/xortransport.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py"],
  ["HttpClient.post exception mapping", "_handle_response_error_code", "protocol retry loops"],
  observe_at=["hostile device simulators; exception types at the public API"], hook_needed=None)

p("C10", "Discovery reports every answering host once, correctly, and survives garbage",
  "During discovery each host that answers from one of the two discovery ports is reported exactly once, by the first answer it sends: as a usable device of the right kind carrying the given credentials and timeouts, as unsupported, or - for unusable replies - not at all, independent of the order, duplication and mixing of later datagrams. Malformed, truncated or foreign datagrams and failing hosts never abort discovery nor hide other hosts, the query is broadcast the configured number of times to both ports, and discovery ends after the discovery timeout (plus the time the callbacks take, all of which are awaited). Discovering a single host returns that host's device as soon as it answers, raises the unsupported-device error for an unsupported one, and raises the timeout error if it stays silent.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all sets of hosts, datagram contents (valid, unsupported, malformed), arrival orders, duplicates, timings, targets and options",
  "Tests feed single, well-formed datagrams; arrival orders, duplicates, garbage and multi-host mixtures are unbounded.",
  ["kasa/discover.py", "kasa/device_factory.py"],
  ["_DiscoverProtocol.datagram_received", "seen_hosts", "do_discover send schedule", "discover_single"],
  observe_at=["in-memory UDP network below create_datagram_endpoint, virtual clock"], hook_needed=None)

p("C11", "Connection parameters select the right protocol, transport, port and class",
  "For every supported device family, encryption type, login version and HTTPS setting, the device built from a discovery answer or from a connection config speaks exactly that protocol to exactly that host and port (device-provided or user override first, else the default for that protocol), and is an instance of the class for its kind. Connecting again from the saved config of a discovered or connected device gives the same kind of device over the same protocol. Combinations that are not supported are rejected with the unsupported-device error instead of being guessed.",
  ["configurations", "inputs"],
  "all combinations of device family, encryption type, login version, https flag, http port, port override, for discovery results and configs",
  "Tests enumerate the combinations present in fixtures; the rest of the matrix and save/restore equivalence are not covered.",
  ["kasa/device_factory.py", "kasa/discover.py", "kasa/deviceconfig.py"],
  ["get_protocol", "get_device_class_from_family", "get_device_class_from_sys_info", "Discover._get_device_instance"],
  observe_at=["wire servers that only accept their own protocol", "class of returned device"], hook_needed=None)

p("C12", "Every connection the library opens is closed; nothing else is",
  "After a device is disconnected, after a failed or cancelled connect, discovery or single-host discovery, and after connection probing, every socket, datagram endpoint and HTTP session the library created is closed and no background task is left running. An HTTP session supplied by the user is used and never closed by the library. A device still works after disconnecting: the next update opens a new connection.",
  ["fault_sequences", "schedules", "histories"],
  "all failure points and cancellation instants in connect/discover/probe/update/disconnect, for all transports",
  "Tests check that close was called on specific mocks for one failure each; leaks at arbitrary failure and cancellation points are not observed.",
  ["kasa/device_factory.py", "kasa/discover.py", "kasa/httpclient.py", "kasa/transports/xortransport.py", "kasa/device.py"],
  ["connect() closing the protocol on failure", "try_connect_all cleanup", "HttpClient.close", "XorTransport.close"],
  observe_at=["instrumented loop and HTTP session counting open resources"], hook_needed=None)

p("C13", "Saved connection configs restore losslessly and keep secrets out when asked",
  "Serialising a connection config to a dict or JSON and restoring it yields an equal config for every value, optional fields absent or present, and values at their default are restored as default (an unset timeout counts as the default timeout). A document that lacks a required entry, or has content that cannot be the entry's value, is refused with an error instead of giving some other config. Saving changes nothing in the config, and the user's HTTP session is never part of it. When control credentials are requested the output never contains the plain credentials, carries the credentials hash when given, and connecting with that hash authenticates exactly like the original credentials (given credentials go before a hash).",
  ["inputs", "configurations"],
  "all configs (hosts, ports, timeouts, batch sizes, credentials, hashes, connection parameters, key pairs) and all transports' credential hashes",
  "Tests round-trip three example configs from fixtures; the field/value product and hash equivalence per transport are not covered.",
  ["kasa/deviceconfig.py", "kasa/credentials.py", "kasa/transports/klaptransport.py", "kasa/transports/aestransport.py", "kasa/transports/sslaestransport.py"],
  ["DeviceConfig.to_dict/from_dict/to_dict_control_credentials", "transport.credentials_hash"],
  observe_at=["public API plus device simulators for authentication equivalence"], hook_needed=None)

p("C14", "Redacted debug logs and redacted data contain no private identifiers",
  "With redaction on (the default), the debug log entries showing device responses and discovery answers, and data passed through the redaction helper, never contain the device's private values in full - MAC address (only the vendor part), hardware/device/owner ids, alias or nickname, location, Wi-Fi name, setup codes and maps - in any nesting of dicts and lists, for single, batched, paged and child queries and for supported and unsupported discovered devices alike. All other values, and the structure, are unchanged, and redaction never alters the data returned to the caller. With redaction off the responses are logged as received.",
  ["inputs", "configurations"],
  "all responses of all fixture devices and generated nestings, for every protocol, single and batched, parent and child, and all discovery answers",
  "Tests check two or three keys on one example; leakage through another path or nesting is a for-all over responses and log statements.",
  ["kasa/protocols/protocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/discover.py"],
  ["REDACTORS tables", "redact_data", "redacted debug logging"],
  observe_at=["logging records captured during real queries"], hook_needed=None)

p("C15", "One failing module never breaks a device update, and it recovers",
  "When some queries of a SMART or camera device fail during an update while the device itself answers, the update still succeeds: unaffected modules show the values just read, and affected ones report an error instead of old or made-up data. A module is asked on every update unless it declares a minimum interval (once a day for hub children), then exactly when that interval has passed; after n failures in a row it is asked again once 30*n seconds have passed, and after ten it is disabled and not asked any more. A module that failed fewer than ten times works again as soon as it is asked and answered. If the device itself does not answer the update raises a library error and the device keeps its model and last known info. If the very first update fails, a later successful one initialises the device completely.",
  ["fault_sequences", "histories"],
  "all sequences of updates with per-method errors, whole-query failures, outages and time gaps for every SMART and camera fixture device",
  "Tests inject one error into one module once; sequences of partial failures, intervals and recoveries are unbounded histories.",
  ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smartcam/smartcamdevice.py"],
  ["_modular_update/_handle_modular_update_error", "SmartModule._set_error, update_interval, disabled", "_last_update_time"],
  observe_at=["stateful device simulator with fault injection and virtual clock"], hook_needed=None)

p("C16", "The children of a parent always mirror the device's child list",
  "After every successful update of a hub, strip or multi-component device that read the list of children, the children are exactly the listed children whose components the device lists too (on camera hubs only those of a supported category), each once, showing its own state from that list: name, model, type, readings; newly paired children appear complete with their features, removed ones disappear together with nothing else, children that stay keep their identity, and lookup by id, name (in any case) or position finds the right one, and nothing where there is none. While the list cannot be read, or an update fails, the children stay as last read. A child that answers with errors or not at all does not prevent the parent or its siblings from updating. Sockets of an IOT strip show the state and name last reported for their own id.",
  ["histories", "fault_sequences"],
  "all histories of pairing, unpairing, state changes, child errors and updates on SMART hubs/strips, camera hubs and IOT strips",
  "Tests add or remove a child once on a fixture; histories of changes mixed with failures are not covered.",
  ["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py", "kasa/iot/iotstrip.py"],
  ["_update_children_info", "_create_delete_children", "_try_create_child"],
  observe_at=["stateful hub simulator"], hook_needed=None)

p("C17", "Every feature of every device honours its declared type, range and choices",
  "For every feature a device exposes, reading it yields a value consistent with its declared type (switches are boolean, numbers lie between a minimum not above the maximum, a choice's value is among its choices - except a light effect stored by another application and the color temperature 0 of a light showing a color), and its unit, name and category are well-formed; ranges the device reports itself are the declared ones. Setting a number outside its range (or not a number, NaN included), or a choice that is not listed, raises a ValueError, changes nothing and sends nothing to the device; so do the module methods behind features that check their values (fan, vacuum, alarm, thermostat, overload protection, light transition and dimmer settings; KasaException on IOT dimmers), which accept the limits themselves; setting a read-only feature raises an error and sends nothing; setting an allowed value sends a command to the device that owns the feature, and only to it, and the value reads back after the next update. A printed feature shows its name, id, value (a choice marked among its choices), unit and range. Features and the module attributes bound to them agree, and has_feature is true exactly when the device has the feature.",
  ["inputs", "configurations"],
  "all features of all fixture devices and all values in and around their range, choices and types",
  "Tests sample each feature with one value; the cross product of features and values, including invalid ones, is not covered.",
  ["kasa/feature.py", "kasa/module.py", "kasa/smart/modules", "kasa/iot/modules", "kasa/smartcam/modules"],
  ["Feature.value/set_value/range/choices", "Module.has_feature/get_feature"],
  observe_at=["wire log of the device simulator versus Feature API"], hook_needed=None)

p("C18", "A setting takes effect on the device and reads back after the next update",
  "After a setter of a device, a module or a feature (power, names, LEDs, alarms, timers, thermostats, vacuums, detection switches, dimmer and sensor settings; lights, effects, presets and time are C19, C22 and C23) returned without error, the device holds the requested setting and the library reports exactly that value after the next update, also when the update comes much later or is repeated; all other settings of that device and of every other device on the same hub or strip are as before. Until that update the reported values do not change. If the device refuses the command the setter raises a KasaException - for SMART devices and cameras a DeviceError carrying the device's final error code - and neither the device nor any reported value changes, and the same holds when no attempt is answered. Values the library reports (features, names, addresses, signal, firmware, sensors) are those the device gave in that update, converted as documented.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "all histories of setter calls with all valid values, updates and device rejections on all fixture device kinds",
  "Tests call each setter once with one value and check the emitted call; histories against a stateful device with all values are not covered.",
  ["kasa/iot", "kasa/smart", "kasa/smartcam"],
  ["set_state/turn_on/turn_off/set_alias", "module setters", "allow_update_after"],
  observe_at=["stateful device simulators written independently of the library"], hook_needed=None)

p("C19", "Light commands carry only valid values and exactly the requested change",
  "Setting brightness, color or color temperature with values outside the supported ranges or of the wrong type raises ValueError or TypeError - or the library exception when the light lacks the capability - and nothing is sent to the device (the values of set_state other than an IOT brightness are left to the device, and booleans are not claimed). Valid values are sent unchanged, once, together with exactly the other settings the caller gave: transitions are passed in milliseconds, on IOT lights a color temperature replaces a color and vice versa, brightness 0 turns the light off, turning on without values restores the light's own previous state, and turn-on behaviours are read and written under the names the device uses. Nothing reported changes until the next update, after which the reported light state is the device's; while a light is off its reported light state says off. Transitions of SMART lights and lights running an effect are outside this property (C23).",
  ["inputs", "histories", "configurations"],
  "all lights (bulbs, strips, dimmers, SMART lights) and all combinations of arguments, valid and invalid, in any on/off state",
  "Tests check selected boundary values on selected devices; the argument product over device kinds and states is not covered.",
  ["kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py", "kasa/iot/iotlightstrip.py", "kasa/iot/modules/light.py", "kasa/smart/modules/light.py", "kasa/smart/modules/brightness.py", "kasa/smart/modules/color.py", "kasa/smart/modules/colortemperature.py"],
  ["_set_light_state/_set_hsv/_set_color_temp/_set_brightness", "Light.set_state", "range checks"],
  observe_at=["wire log of the light simulator"], hook_needed=None)

p("C20", "An IOT update reads all supported modules without overloading the device",
  "After a successful update of an IOT device (bulb, plug, dimmer, light strip, or strip with its sockets) every supported module holds the data just read from the device for its own queries, unsupported ones are not listed and do not make the update fail, however the update was split into requests. No request is sent whose estimated answer exceeds what the device can send unless it consists of a single part, nothing is asked twice, splitting and merging loses or overwrites no answer, and once a module is found unsupported it is not queried again. When a request of an update fails, the update raises a KasaException and each device holds either all of its previous or all of its new data, never a mixture, and the next update is complete again. Reading any property of the device before its first update gives a value or raises KasaException, and sends nothing.",
  ["configurations", "histories", "inputs"],
  "all IOT fixture devices, all subsets of supported modules, response limits and orders, sequences of updates with changing data",
  "Tests run a single update on each fixture; splits depend on module sets and limits the fixtures do not vary.",
  ["kasa/iot/iotdevice.py", "kasa/iot/iotmodule.py", "kasa/iot/iotstrip.py"],
  ["_modular_update splitting by estimated_query_response_size", "merge", "max_device_response_size", "requires_update"],
  observe_at=["IOT device simulator logging requests"], hook_needed=None)

p("C21", "Energy and usage figures are in the documented units and sum up",
  "Whatever units and fields a device reports (milli or base units, old or new format), power is reported in W, current in A, voltage in V and energy in kWh with the same physical value in module properties, features and the status container, and figures the device does not report are None; daily and monthly statistics are keyed by day or month with the value for the requested year and month (default: the current ones), in kWh or Wh as requested, usage in minutes. Today's and this month's figures are never those of another day, month or year, also when read long after the update. A power strip's power, current and energy are the sums of its sockets' figures and its voltage their average. on_since is None while off; while a device stays on it is the instant of switching on by the device's own clock (device time minus on-time, also across daylight saving changes), does not move while the device's reports differ by less than five seconds, and follows larger jumps in either direction; a strip shows the earliest of its sockets.",
  ["inputs", "histories", "configurations"],
  "all readings in all reported formats, all calendars dates, all strips, sequences of updates with drifting clocks",
  "Tests check one or two example payloads; unit/format mixtures and histories over time are unbounded.",
  ["kasa/emeterstatus.py", "kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py", "kasa/iot/iotstrip.py", "kasa/smart/modules/energy.py", "kasa/smart/smartdevice.py"],
  ["EmeterStatus", "_convert_stat_data", "StripEmeter", "on_since"],
  observe_at=["simulated readings versus public properties, virtual clock"], hook_needed=None)

p("C22", "Device time and time zone are reported and set as the same instant",
  "The time reported for a device (and its children) is the instant its clock shows, with the UTC offset of the device's own time zone, daylight saving included; unknown SMART and camera zones fall back to the reported fixed offset, unknown or missing zones of IOT devices to UTC. Setting the time - naive (meant in the device's zone) or aware in any zone - sets the device clock to that instant and the wall time of the device's zone, and reads back as the same instant. A naive time leaves the zone alone; a given IANA zone is set on the device (cameras and SMART devices; SMART devices also take fixed offsets) or, for IOT devices, becomes the same zone of the firmware's table or else one whose offsets are the same throughout the current year; if there is none ValueError is raised and nothing is sent. If the device refuses, a KasaException is raised. The hour repeated at the end of daylight saving is not claimed for IOT devices.",
  ["inputs", "histories", "configurations"],
  "all instants including DST changes, all IANA zones and device zone indexes, naive and aware datetimes, for IOT, SMART and camera devices",
  "Tests check a few fixed datetimes and zones; zone x instant space including DST edges is large.",
  ["kasa/iot/modules/time.py", "kasa/iot/iottimezone.py", "kasa/smart/modules/time.py", "kasa/smartcam/modules/time.py", "kasa/cachedzoneinfo.py"],
  ["get_timezone/get_timezone_index", "set_time", "CachedZoneInfo"],
  observe_at=["simulated device clocks"], hook_needed=None)

p("C23", "Light effects and presets: what is listed can be chosen and is what gets applied",
  "Every effect and preset the library lists for a light can be selected by that name (by the module or its feature), is applied to the device with exactly its stored definition (an effect's brightness and transition only overridden when given; SMART lights otherwise keep their brightness), and is reported as current after the next update, as is an effect another application started or stopped; of several presets equal to the light's state the first is reported, 'Not set' when there is none. Names not listed are rejected with ValueError and nothing is sent. Turning an effect off leaves no effect active. While an effect runs, the light's brightness is the effect's, and setting it changes that brightness alone. Saving a preset changes exactly the named preset to the given values and leaves every other preset, also the effects stored among them, as it was. A refused command changes nothing, and neither the built-in definitions nor the caller's own effect is ever altered.",
  ["inputs", "histories", "configurations"],
  "all lights with effects/presets, all listed names, all preset values, sequences of selections, saves, changes by other applications and updates, preset lists mixing effects and states",
  "Tests select one effect and save one preset per fixture; sequences, built-in effect definitions and mixed preset lists are not covered.",
  ["kasa/iot/modules/lighteffect.py", "kasa/iot/modules/lightpreset.py", "kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py", "kasa/smart/modules/lightpreset.py", "kasa/iot/effects.py", "kasa/smart/effects.py"],
  ["set_effect", "set_preset/save_preset", "EFFECT_MAPPING"],
  observe_at=["stateful light simulators"], hook_needed=None)

p("C24", "Devices in one process are independent; caller data is never altered",
  "Any number of devices used in one process, one after the other or concurrently, of equal or different kinds, on different addresses or different ports of one address, with HTTP sessions of their own or a shared http_client: what each reports, what it is sent, and how its operations end never depends on which other devices exist or what happened to them; session cookies, logins and encryption keys are never mixed up or lost because of another device. Library calls never modify the dictionaries and objects the caller passed in (requests of protocol queries, effect dictionaries, light states, presets, turn-on behaviors, discovery answers, credentials, configurations - except the session keys and default timeout a device stores in its own DeviceConfig), nor the built-in effect definitions.",
  ["schedules", "histories", "configurations"],
  "all mixes of devices of equal and different kinds and all interleavings of updates, settings, failures and reads on them",
  "Tests run one device per test; shared mutable state only shows with several live devices and histories.",
  ["kasa/httpclient.py", "kasa/transports", "kasa/smart/modules", "kasa/iot/modules", "kasa/protocols", "kasa/device.py"],
  ["module level caches and class attributes", "request dictionaries passed to query", "the cookie jar of a shared HTTP session"],
  observe_at=["differential runs: device alone in a pristine process versus amid others", "deep snapshots of caller data and constants"], hook_needed=None)

p("C25", "The command line acts on the addressed device and tells the truth",
  "A CLI command does to the addressed device or child exactly what the corresponding library call with the given arguments does, and nothing else; reading commands change nothing. The text shows the values the device reports, and in JSON mode standard output is one valid JSON document with the result. The exit status is 0 when the command succeeded, and non-zero with a message (text mode) when the device fails or refuses, the capability, child or device alias is missing, or the arguments are invalid - in these latter cases nothing is sent that changes the device. A confirmation that is declined changes nothing. Host, type, encryption, family, login version, https, port, timeouts and credentials, given as options or environment variables, address the device as given. Help needs no device. The discovery commands show every device that answers exactly once, with its name or what is wrong with it, and one failing device does not hide the others. Every connection made is closed when the command ends.",
  ["inputs", "configurations", "fault_sequences"],
  "all CLI commands and argument combinations over the simulated device kinds, with device errors injected",
  "Tests invoke commands once on fixtures with mocks; argument, device kind and fault combinations are not covered.",
  ["kasa/cli/main.py", "kasa/cli/common.py", "kasa/cli/device.py", "kasa/cli/feature.py", "kasa/cli/light.py", "kasa/cli/time.py", "kasa/cli/usage.py", "kasa/cli/discover.py", "kasa/cli/device.py", "kasa/cli/schedule.py", "kasa/cli/hub.py", "kasa/cli/vacuum.py", "kasa/cli/wifi.py"],
  ["pass_dev_or_child", "json_formatter_cb", "CatchAllExceptions", "cli connection set-up"],
  observe_at=["in-process CLI runs against simulated devices"], hook_needed=None)

p("C26", "One-shot commands run exactly once, with the given values, and tell the truth",
  "Rebooting, factory resetting, joining a Wi-Fi network, changing credentials or MAC address, playing (with exactly the given duration, volume and sound) and stopping alarms, locating and emptying vacuums, resetting one consumable, moving cameras (also by the pan and tilt features with their step), erasing statistics, enabling rule lists, deleting one or all rules (the others stay) and the cloud commands each make the addressed device execute exactly that command once with exactly the given values, and no other device anything; invalid values raise ValueError and send nothing; a refusal or a missing answer raises a KasaException (joining Wi-Fi on SMART devices is sent once and needs no answer, but a reported refusal is raised), and without a known device time Wi-Fi and credentials of SMART devices are refused with KasaException. A Wi-Fi scan returns every network the device lists, in order, with the details it gives. Pairing waits the given time, adds exactly the devices the hub detected, returns those that were added, and they are children afterwards; unpairing removes exactly that child. Firmware information is that of the last check (None after a failed one, no update is reported available without cloud connection); an update is refused when none is available, otherwise downloads once, passes every state the device tells to the callback in order, survives unreachable phases, returns the final state, and gives up after five minutes. Camera stream addresses carry exactly the given or configured credentials, percent-encoded, with host, port and stream; none is given without credentials or for hub children. Questions put to a legacy device at once (its time, timezone, firmware list, motion sensor, bulb details and state, button and turn-on behaviour, system information, raw statistics of a month or year) are asked once, return what the device says now, and change no other reported value; the motion sensor values follow the fresh reading; refused or unanswered ones raise a KasaException (get_time answers None).",
  ["inputs", "histories", "fault_sequences"],
  "all one-shot commands of all device kinds and children, all argument values, refusals and missing answers, all pairing and firmware histories",
  "Tests call these with one set of values against mocks; values, refusals, timing of pairing and firmware phases and the recorded variety of scan answers are not covered.",
  ["kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py", "kasa/smart/modules/alarm.py", "kasa/smartcam/modules/alarm.py", "kasa/smart/modules/childsetup.py", "kasa/smartcam/modules/childsetup.py", "kasa/smart/modules/firmware.py", "kasa/smartcam/modules/pantilt.py", "kasa/smartcam/modules/camera.py", "kasa/iot/modules/cloud.py", "kasa/smart/modules/speaker.py", "kasa/smart/modules/consumables.py"],
  ["wifi_scan/wifi_join/update_credentials", "pair/unpair", "check_latest_firmware/update", "stream_rtsp_url", "play/stop"],
  observe_at=["device-side execution log", "scripted hubs and firmware updates"], hook_needed=None)

p("C27", "Old API names still work, mean what replaces them, and warn",
  "Every documented old name answers as its replacement does, on every device and child that has the capability, in every state: device type tests (is_bulb, is_dimmer, is_light_strip, is_plug, is_wallswitch, is_strip, is_strip_socket), abilities (is_color, is_dimmable, is_variable_color_temp, has_effects, valid_temperature_range, on the device and on its light module), light values and setters (brightness, hsv, color_temp and set_...), led and set_led, effects (effect and effect_list as they were: on light strips the device's own effect record and the built-in names without Off; set_effect, set_custom_effect), presets (preset objects on IOT bulbs) and save_preset, energy values and statistics on the device (emeter_realtime, emeter_today, emeter_this_month, current_consumption, get_emeter_realtime, get_emeter_daily, get_emeter_monthly) and on the energy module (emeter_today, emeter_this_month, realtime, get_realtime, erase_emeter_stats), and supported_modules. Reading sends nothing and changes nothing; an old method makes the device execute the same commands, returns the same, and fails alike as its replacement. Each use gives one DeprecationWarning naming the old name, at the caller's line. A device without the capability raises AttributeError, as any unknown name does (without a warning). The old class names of the kasa package are the new classes, TPLinkSmartHomeProtocol speaks the legacy protocol with the given host, port and timeout, and every name of kasa.__all__ can be imported.",
  ["inputs", "histories", "configurations"],
  "all old names on all devices and children, in all states, with all arguments, refusals included",
  "Tests check that the old names do not raise, not what they answer in which state or what they send.",
  ["kasa/device.py", "kasa/interfaces/light.py", "kasa/interfaces/energy.py", "kasa/__init__.py", "kasa/protocols/iotprotocol.py", "kasa/iot/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py"],
  ["Device.__getattr__", "Light.__getattr__", "Energy.__getattr__", "kasa.__getattr__", "_deprecated_* methods"],
  observe_at=["old and new name side by side", "twin devices: one commanded by the old name, one by the new"], hook_needed=None)

p("C28", "Fixture files hold the device's answers and nothing private",
  "The fixtures devtools/dump_devinfo.py makes from a device (get_smart_fixtures, get_legacy_fixture, handle_device) contain no private value of the device, its children or its discovery answer: no device, hardware, firmware, OEM, owner or group ids, no MAC address beyond its vendor part, no IP address, names, network names, positions, setup codes, tokens, serial numbers or maps - neither in file contents nor in file names. Apart from such values they hold exactly what the device answered, complete lists included, to every query it answered successfully, and nothing else; the discovery answer given is included and not modified. Each child has one number of its own which stands for its id wherever the id appears; children of another model get a fixture file of their own, in the folder of their kind, the others are in their parent's. A refused query, a child which does not answer, or a device which refuses the combined query of IOT devices does not prevent the fixture. Files are saved under model, region, hardware and firmware version in the folder of their kind.",
  ["inputs", "configurations", "fault_sequences"],
  "all device kinds with all combinations of children, private values, refused queries, batch sizes and discovery answers",
  "Tests recreate recorded fixtures, which are masked already and so cannot show a leak; children of strips are skipped.",
  ["devtools/dump_devinfo.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/discover.py"],
  ["get_smart_fixtures", "get_legacy_fixture", "scrub_child_device_ids", "_wrap_redactors", "handle_device"],
  observe_at=["fixtures and files made from devices with unique private values"], hook_needed=None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
