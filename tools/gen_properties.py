#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))
I = "include/nbdl/"
prop("C01", "Base64 encoding is RFC 4648 for every byte sequence",
 "For every contiguous container of bytes, signed or unsigned, encoding returns exactly the padded RFC 4648 base64 text: its length is four times the number of started three-byte groups, each character is the alphabet letter of the corresponding six bits of the input, and the missing one or two bytes of the last group are marked with one or two '='. Nothing outside the input is read and nothing outside the result is written.",
 ["inputs"], "every byte sequence of every length up to INT_MAX/4 and every value of every byte, for containers of unsigned and of plain char",
 "The tests encode a handful of ASCII strings and one short binary array; bytes above 127 in a char container, every residue of the length and long inputs are not reached.",
 [I+"util/base64_encode.hpp"], [("encode_fragment", I+"util/base64_encode.hpp"), ("encoding_length_padded", I+"util/base64_encode.hpp"), ("base64_encode", I+"util/base64_encode.hpp")],
 ["returned string"])
prop("C02", "Base64 decoding accepts exactly valid text and inverts encoding",
 "Decoding succeeds exactly when the text's length is a multiple of four, it uses only alphabet letters and '=', and its '=' characters are at most two and all at the end; on success the output is exactly the bytes those letters denote, so decoding an encoding gives the original bytes back. Text that is not valid is reported as a failure (an empty result for the form that returns a buffer), a fixed-size output is accepted only if its size is exactly the decoded size, and no byte outside the input or the output is touched.",
 ["inputs"], "every byte sequence of every length as text, every output container kind (resizable and fixed-size)",
 "Tests decode a few well-formed strings and a few malformed ones; malformed short texts, '=' in odd places, bytes above 127 and all lengths are not covered.",
 [I+"util/base64_decode.hpp"], [("validate", I+"util/base64_decode.hpp"), ("decode", I+"util/base64_decode.hpp"), ("target_decoded_length", I+"util/base64_decode.hpp"), ("prepare_output_buffer", I+"util/base64_decode.hpp")],
 ["returned buffer or status", "output container"])
prop("C03", "WebSocket messages are sent as one well-formed frame sequence",
 "For every message payload and frame limit, the bytes written to the connection are a sequence of unmasked RFC 6455 frames whose payloads concatenate to exactly the message: the first frame carries the message's opcode, later ones the continuation opcode, exactly the last one has the FIN bit, no payload exceeds the limit, and every length field is the canonical 7, 16 or 64 bit encoding of its frame's payload. The sender reports completion exactly once, after the last frame, and reports the first write error instead, after which nothing more is written.",
 ["inputs", "fault_sequences"], "every payload length and content, every frame limit, every length value, and a write error at any frame",
 "Tests send a few short messages over a loopback socket; frame boundaries, multiples of the limit, extended lengths and write errors at a given frame are not reached.",
 [I+"websocket/detail/message_sender.hpp"], [("send_message_impl", I+"websocket/detail/message_sender.hpp"), ("encoded_length_buffer", I+"websocket/detail/message_sender.hpp"), ("send_frame_impl", I+"websocket/detail/message_sender.hpp")],
 ["bytes passed to the socket write", "completion or rejection of the send"])
prop("C04", "WebSocket messages are reassembled exactly from any frame stream",
 "For every sequence of incoming frames, each completed message delivered to the handler is exactly the concatenation of its fragments' unmasked payloads, with 7, 16 and 64 bit lengths read in network byte order and the mask applied from its first byte at the start of every frame. Every byte of every frame, control frames included, is consumed exactly once, so the next frame is read from its true start; a close, an unknown opcode or a read error is reported once and reading stops.",
 ["inputs", "histories", "fault_sequences"], "every sequence of frames with every opcode, FIN and mask bit, mask key, length encoding and payload, and a read error at any point",
 "Tests send single short text frames over loopback; fragmented masked messages, extended lengths, control frames with payloads and errors in mid-frame are not reached.",
 [I+"websocket/detail/message_reader.hpp"], [("get_payload_length", I+"websocket/detail/message_reader.hpp"), ("read_payload", I+"websocket/detail/message_reader.hpp"), ("opcode_dispatch", I+"websocket/detail/message_reader.hpp"), ("message_reader::keep_reading", I+"websocket/detail/message_reader.hpp")],
 ["payload handed to the message handler", "stream position at each read", "events delivered"])
prop("C05", "SHA-1 digests and handshake accept tokens are correct",
 "For every message, however it is cut into successive updates, the digest produced is the FIPS 180-4 SHA-1 of the concatenation of the updates. The handshake accept token for a key is the base64 text of the SHA-1 of the key followed by the protocol's fixed GUID, as RFC 6455 prescribes, for every key.",
 ["inputs", "histories"], "every message of every length, every way to split it into updates, every handshake key",
 "One or two known digests and the RFC sample key are tested; lengths around the 55/56/64 byte block boundaries, multi-block updates and mixed chunk sizes are not.",
 [I+"detail/beast_sha1.hpp", I+"websocket/detail/send_handshake_response.hpp"], [("update", I+"detail/beast_sha1.hpp"), ("finish", I+"detail/beast_sha1.hpp"), ("transform", I+"detail/beast_sha1.hpp"), ("generate_accept_token", I+"websocket/detail/send_handshake_response.hpp")],
 ["digest bytes", "returned token"])
prop("C06", "Handshake headers are parsed exactly and safely",
 "For every header line, the WebSocket key or the cookie text of the handshake is replaced exactly when the name before the first colon equals that header's name ignoring case, and the stored value is exactly the rest of the line after the colon without its leading spaces; any other line leaves both unchanged. No header line, with or without a colon, makes the parser read outside the line.",
 ["inputs"], "every header line of every length and content",
 "Tests drive one or two complete valid requests; malformed lines, case variants, empty values and look-alike names are not covered.",
 [I+"websocket/detail/parse_handshake_request.hpp"], [("parse_header", I+"websocket/detail/parse_handshake_request.hpp"), ("read_headers", I+"websocket/detail/parse_handshake_request.hpp")],
 ["handshake key and cookie text"])
prop("C07", "Credential extraction returns exactly the named cookie's value",
 "For every cookie string, the authentication token extracted is exactly the value of the first cookie with that exact name in the ';'-separated list, up to the next ';' or the end, and it is empty exactly when no cookie has that name; the session cookie is extracted in the same way. A cookie whose name merely contains, ends with or is followed by the searched name, or that has no value, never supplies or hides a credential, and nothing outside the string is read.",
 ["inputs"], "every cookie string of every length and content made of cookies separated by a semicolon and one space",
 "Tests cover about a dozen fixed strings; look-alike names, cookies without '=', empty values and positions are sampled only.",
 [I+"websocket/detail/get_auth_token.hpp", I+"app/detail/cookie_parser.hpp"], [("check_auth_cookie", I+"websocket/detail/get_auth_token.hpp"), ("get_auth_token", I+"websocket/detail/get_auth_token.hpp"), ("get_session_cookie", I+"app/detail/cookie_parser.hpp")],
 ["returned token"])
prop("C08", "A WebSocket endpoint delivers events and queued messages in order, once",
 "For every history of sends, received frames, closes, errors and stops, queued messages are written one at a time in the order they were queued, each removed only after its write succeeded, nothing is written after a close frame, and messages queued before the endpoint starts are sent when it starts. Once the endpoint has been stopped no handler is called any more; an error in a write or a read is reported to the handler and ends that activity.",
 ["histories", "fault_sequences"], "every sequence of public calls and completed or failed socket operations",
 "Tests run a few scripted exchanges over loopback; other orders of send, close, error and stop relative to outstanding operations are not sampled.",
 [I+"websocket/detail/endpoint_impl.hpp", I+"async_enqueue.hpp"], [("start_send_queue", I+"websocket/detail/endpoint_impl.hpp"), ("call_handler", I+"websocket/detail/endpoint_impl.hpp"), ("make_reader_handler", I+"websocket/detail/endpoint_impl.hpp"), ("control_frame", I+"websocket/detail/endpoint_impl.hpp")],
 ["frames handed to the socket", "handler calls"])
prop("C09", "A map store holds exactly the last state each message announced",
 "For every store content, key and message, a downstream create or update makes the store map that key to exactly the message's payload and reports a change; a downstream read does so only if the key had no resolved value, and reports a change exactly then; a downstream delete removes the key and reports a change; an upstream read leaves a resolved value alone, marks an absent key as being resolved and reports no change; other upstream messages change nothing. No message alters the value stored under any other key, and looking a key up yields its stored value, or the signal that a read must be triggered when it is absent.",
 ["inputs", "histories"], "every store content, every key and payload, every message kind, hence by induction every message history",
 "Tests apply one or two messages to small fixed maps; arbitrary contents, overwrites, and the frame condition on other keys are not covered.",
 [I+"map_store.hpp", I+"ext/std/unordered_map.hpp"], [("handle_map_store_action", I+"map_store.hpp"), ("match_impl", I+"ext/std/unordered_map.hpp")],
 ["lookups on the store", "change indication"])
prop("C10", "Optimistic local changes converge to the confirmed state",
 "For every interleaving of local changes, their confirmations and other clients' confirmed changes, the visible value reflects every change as soon as it arrives, except that confirming a change of one's own does not undo a newer local one while others are still outstanding. Whenever no local change is outstanding, the visible value equals the result of applying all confirmed changes in the order they were confirmed.",
 ["histories", "schedules"], "every history of local and confirmed changes with any identifiers and any fields, in every arrival order",
 "Tests play a few scripted histories of two or three changes; arbitrary interleavings are not covered.",
 [I+"local_version.hpp", I+"delta.hpp"], [("apply_local_delta", I+"local_version.hpp"), ("apply_confirmed_delta", I+"local_version.hpp")],
 ["value seen through match and get", "pending state"])
prop("C11", "Deltas record exactly the differing fields and apply exactly them",
 "A delta made from two values holds exactly the fields in which they differ, with the first value's contents; applying it to the second gives the first. Applying any delta to any value changes exactly the fields the delta holds, to the delta's contents, leaves all others alone, and reports a change exactly if some field's value changed; applying a delta to a delta composes them, the later one winning.",
 ["inputs"], "every pair of values of an entity type, every subset of fields present in a delta",
 "Tests use two or three fixed entities; the combinations of equal, different and absent fields are not enumerated.",
 [I+"delta.hpp", I+"apply_delta.hpp", I+"make_delta.hpp", I+"variant.hpp"], [("make_delta_impl", I+"delta.hpp"), ("apply_delta_impl", I+"delta.hpp")],
 ["fields of the result", "returned change flag"])
prop("C12", "A variant always holds exactly one alternative and dispatches to it",
 "A variant holds exactly the alternative last assigned, starting with its default; matching calls exactly one handler, exactly once, with the held value, and a match limited to one type calls its handler exactly when that type is held. Two variants are equal exactly when they hold the same alternative with equal values; reconstructing a variant from the type id and value it binds gives an equal variant, and an unknown type id changes nothing.",
 ["inputs"], "every alternative and value on both sides, every type id",
 "Tests match and compare a few chosen values; pairs of alternatives, equal ids with different values and out-of-range ids are not enumerated.",
 [I+"variant.hpp"], [("variant", I+"variant.hpp"), ("match_impl<variant_tag>", I+"variant.hpp"), ("equal_impl<variant_tag>", I+"variant.hpp"), ("bind_variant_impl<variant_tag>", I+"variant.hpp")],
 ["handler calls", "comparison results"])
prop("C13", "The context routes every message to exactly the right parties",
 "Each message pushed into a context is applied first, once, to the store of its path and to no other store except declared listeners; then, if the store reports a change, every state consumer is notified once with the path, and the message goes to the one producer responsible for the path if it is upstream, or to every consumer if it is downstream. An upstream read goes to the producer only if the value is absent, is swallowed while a read is pending, and is answered with the stored value otherwise; looking up an absent value triggers exactly one such read.",
 ["inputs", "histories"], "every message kind, path, payload and state of the stores (absent, pending, resolved; change reported or not)",
 "Tests push a few messages through one fixed context and look at one actor; the combinations of store state, message kind and actor role are sampled.",
 [I+"context.hpp"], [("push_message", I+"context.hpp"), ("propagate_upstream", I+"context.hpp"), ("propagate_downstream", I+"context.hpp"), ("notify_state_consumers", I+"context.hpp"), ("match_impl<context_tag>", I+"context.hpp")],
 ["messages received by producers and consumers", "state change notifications"])
prop("C14", "Messages keep their content through every accessor and conversion",
 "Every accessor of a message returns exactly what the message was made with: path, identifier, payload, private payload and confirmation. Converting an upstream message to its downstream answer keeps path, identifier and payload, records the given confirmation, uses exactly the given key or the message's own identifier for a created object's path, and never carries the private payload along.",
 ["inputs"], "every message kind, with and without each optional part, and every value of the parts",
 "Tests check selected accessors on selected messages with fixed values; not every optional part, and not all conversions.",
 [I+"message.hpp", I+"fwd/message.hpp"], [("accessor implementations", I+"message.hpp"), ("to_downstream", I+"message.hpp"), ("to_downstream_with_key", I+"message.hpp"), ("get_normalized_path", I+"message.hpp")],
 ["accessor results"])
prop("C15", "Promise pipelines run each step in order with exact error routing",
 "A pipeline passes each step exactly the values the previous step resolved with, runs the steps in order, once per pass, and nothing after a step that terminates or never resolves. A rejection skips every following step up to the first later handler that accepts its type, runs that handler exactly once and ends the pipeline there; a nested pipeline behaves exactly as if its steps stood in its place; a looping pipeline starts again with the values of its last step, and only when that step resolves.",
 ["inputs", "histories", "fault_sequences"], "every value passed, every step outcome (resolve, reject of any type, terminate, defer) at every position, for representative pipeline shapes",
 "Tests run a few pipelines in which one chosen step resolves or rejects; all combinations of outcomes by position, type and nesting are not enumerated.",
 [I+"promise.hpp", I+"catch.hpp", I+"tap.hpp", I+"run_sync.hpp", I+"run_async.hpp", I+"run_async_loop.hpp", I+"detail/promise_join.hpp", I+"fwd/detail/promise_join.hpp", I+"detail/wrap_promise.hpp"],
 [("promise_join_t", I+"fwd/detail/promise_join.hpp"), ("catch_t", I+"catch.hpp"), ("promise_end", I+"run_async.hpp"), ("promise_end_loop", I+"run_async_loop.hpp"), ("wrap_promise", I+"detail/wrap_promise.hpp")],
 ["sequence of step and handler calls with their arguments"])
prop("C16", "Asynchronous pipelines own their state and release it exactly once",
 "The state of an asynchronous pipeline, including values it holds or creates lazily, stays alive until the pipeline ends and is released exactly once when it resolves at the end, is terminated or has a rejection handled, wherever that happens. It is never used after that, never released twice and never leaked, and lazily created values are constructed before their use and destroyed exactly once (provided a lazily created value does not resolve its pipeline before its own construction is complete).",
 ["histories", "fault_sequences"], "every step outcome at every position, for single and looping pipelines, with held and lazily held values",
 "Tests neither count constructions and destructions across outcomes nor run the error paths under a leak checker.",
 [I+"run_async.hpp", I+"run_async_loop.hpp", I+"hold.hpp", I+"hold_lazy.hpp"], [("shared_end_pipe", I+"run_async.hpp"), ("shared_end_pipe_loop", I+"run_async_loop.hpp"), ("lazy_holder", I+"hold_lazy.hpp"), ("holder", I+"hold.hpp")],
 ["constructions and destructions of held values", "heap blocks"])
prop("C17", "String concatenation is exact for all operands",
 "Concatenating any number of strings of any kinds yields exactly their characters in order, embedded zero characters of sized strings included, with a length that is the sum of the lengths. Nothing outside the operands is read and nothing outside the result is written.",
 ["inputs"], "every content and length of every operand, for representative operand counts and kinds",
 "Tests concatenate a few short literals; empty operands in all positions, embedded zeros and long strings are not covered.",
 [I+"detail/string_concat.hpp"], [("string_concat_fn", I+"detail/string_concat.hpp"), ("to_string_view_fn", I+"detail/string_concat.hpp")],
 ["returned string"])
prop("C18", "Hashing agrees with equality and depends on every part",
 "Two values of the same bindable type that compare equal have equal hashes, and the hash of a value is determined by the hashes of its parts alone: they are combined in order by hash_combine, starting from zero, and every member, element, and a variant's type id and held value take part exactly once. Combining two different part hashes into the same state gives different results.",
 ["inputs"], "every pair of values of bindable sequences, containers and variants",
 "Tests compare the hashes of a few values; dependence on every part and agreement on all equal pairs cannot be sampled.",
 [I+"binder/hash.hpp", I+"detail/hash_combine.hpp"], [("hash_combine", I+"detail/hash_combine.hpp"), ("writer::bind", I+"binder/hash.hpp")],
 ["hash value"])
prop("C19", "Lookup and actions reach exactly the store a key or path names",
 "Matching or getting with a key, or with a path of keys, reaches exactly the element those keys select, one key per level, and the caller's function is called exactly once with that element, by reference where the store owns it. In a composed store the key and its actions reach exactly the store composed under that key and every other key or action goes to the rest; applying an action changes no other part.",
 ["inputs"], "every value of every element, every key of the composed or nested store, for representative nestings",
 "Tests look up a few fixed elements; that no other element is visited or changed, for every content, is not checked.",
 [I+"match.hpp", I+"get.hpp", I+"match_path.hpp", I+"store_compose.hpp", I+"context_store.hpp"], [("match_fn", I+"match.hpp"), ("get_fn", I+"get.hpp"), ("match_path", I+"match_path.hpp"), ("store_composite", I+"store_compose.hpp"), ("context_store", I+"context_store.hpp")],
 ["calls of the caller's function and their arguments", "elements after an action"])
prop("C20", "Values survive being written as JSON and read back",
 "For every value of a bindable type, writing it as JSON and reading the text into a fresh object gives an equal value: members, nested sequences, containers of any size including empty ones, byte buffers, variants and strings with any characters. Reading JSON of the wrong shape reports an error instead of producing a value.",
 ["inputs"], "every value of representative entity, sequence, container, buffer, variant and string types",
 "Tests round trip one or two fixed objects; empty containers, every alternative, extreme numbers and embedded zero characters are not covered.",
 [I+"binder/jsoncpp.hpp"], [("reader", I+"binder/jsoncpp.hpp"), ("writer", I+"binder/jsoncpp.hpp"), ("bind_jsoncpp", I+"binder/jsoncpp.hpp")],
 ["value read back", "reported error"])
prop("C21", "The echo producer answers every request exactly once with its content",
 "For every upstream create, update or delete that reaches it, the echo producer sends exactly one downstream message of the same kind with the same path, identifier and payload; for a create without a usable key it supplies a key it has not supplied before. Nothing is sent otherwise.",
 ["inputs", "histories"], "every upstream create, update and delete with every content, and every number of earlier requests",
 "Tests send one message of a kind; freshness of keys over a history and content preservation for all values are not covered.",
 [I+"echo_producer.hpp", I+"message.hpp"], [("send_upstream_message_impl<echo_producer>", I+"echo_producer.hpp"), ("make_unique_key", I+"echo_producer.hpp")],
 ["messages applied to the context"])
prop("C22", "A tile move keeps the puzzle a permutation and moves only the blank's neighbours",
 "For every board and every move, a legal move exchanges exactly the blank with the adjacent tile in that direction and an illegal move changes nothing, so the board always remains a permutation of its tiles. No square outside the board is ever read or written.",
 ["inputs", "histories"], "every arrangement of the tiles and every move, hence every history of moves",
 "The game has no unit tests of its own; edge squares and all arrangements are not covered.",
 ["example/tiles/game.hpp"], [("get_tile_swap_index", "example/tiles/game.hpp"), ("apply_action_impl", "example/tiles/game.hpp")],
 ["board after a move"])
prop("C23", "Generated SQL statements name exactly the entity's tables and columns",
 "Every statement generated for an entity names its table, lists each of its columns exactly once in member order and has one placeholder per bound value, with joins exactly for its members that are entities themselves.",
 ["programs"], "every entity definition a user can write",
 "Tests compare the text generated for a few fixed entities.",
 [I+"sql_db/insert.hpp", I+"sql_db/update.hpp", I+"sql_db/statement/detail/table_alias_list.hpp"], [("insert", I+"sql_db/insert.hpp"), ("update", I+"sql_db/update.hpp")],
 ["statement text"])
prop("C24", "A rendered user interface always shows the current state of the store",
 "After every state change, the nodes of a rendered page that depend on changed state show the new state and all other nodes are untouched; a URL maps to the route it was generated from.",
 ["histories", "programs"], "every page specification and every history of state changes",
 "Needs a browser: the tests of this part are JavaScript programs that are not built here.",
 [I+"webui/renderer.hpp", I+"webui/detail/dom_manips.hpp", I+"webui/route_map.hpp", I+"ui_spec.hpp"], [("dom_manips", I+"webui/detail/dom_manips.hpp"), ("route_map", I+"webui/route_map.hpp")],
 ["document tree"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
