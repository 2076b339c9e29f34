SRVN = 'monitor composed with the complete event loop of the server; fixpoint over unbounded histories for one client without faults (quick) and with faults (thorough), two events with every fault pattern and with two clients (quick); message coding replaced by a model of the coap_msg interface (the real one is P01-P05, P07-P09); UDP build, IPv4'
p('P10', 'A duplicate request never reaches the application again',
  'A request that repeats the message id of the last request recorded for that client is never passed to the request handler. A confirmable duplicate is answered again from what was recorded: the identical response if it was piggy-backed, otherwise another acknowledgement; a non-confirmable duplicate is ignored. The first request of a client is never mistaken for a duplicate.',
  ['histories', 'schedules', 'inputs'], 'every history of datagrams, timer expiries and failures; every message id, type, token and path',
  'deduplication depends on what was recorded, replaced and forgotten by every earlier event; tests replay a few fixed exchanges',
  ['lib/src/coap_server.c'], ['coap_server_exchange', 'recorded request and response of a transaction'], state=['coap_server_trans_t.req', 'coap_server_trans_t.resp'], observe=['request handler calls', 'datagrams sent'], note=SRVN)
p('P11', 'Every request gets exactly one response that matches it',
  'Each new acceptable request causes exactly one response, sent to the client that asked, carrying the token of the request. A piggy-backed response is an acknowledgement with the id of the request; a path registered for separate responses is first acknowledged exactly once and then answered by a confirmable message; a non-confirmable request is answered by a non-confirmable message. The handler is called exactly once per acceptable request.',
  ['histories', 'schedules', 'inputs'], 'every history of datagrams, timer expiries and failures; every message id, token, type and path; two interleaved clients',
  'tests run one exchange of each kind against a live peer and cannot enumerate interleavings with timers, failures and other clients',
  ['lib/src/coap_server.c'], ['coap_server_exchange', 'coap_server_trans_send', 'coap_server_get_resp_type'], observe=['datagrams sent', 'request handler calls'], note=SRVN)
p('P12', 'Unacknowledged responses are retransmitted with back-off, at most four times',
  'A confirmable response that is not acknowledged is sent again, unchanged and only to its client, after a first timeout of 2 to 3 seconds that doubles each time, at most four times; then the exchange is dropped. A matching acknowledgement or reset, or a new request from the client, stops retransmission at once. Nothing but an unacknowledged confirmable response is ever retransmitted.',
  ['histories', 'schedules', 'fault_sequences'], 'every interleaving of timer expiries, acknowledgements, resets, new requests and failures',
  'a full back-off sequence takes about a minute of real time and races with incoming messages; tests never lose an acknowledgement at a chosen point',
  ['lib/src/coap_server.c'], ['coap_server_trans_handle_ack_timeout', 'ack timer start/stop/update', 'coap_server_exchange'], state=['coap_server_trans_t.num_retrans', 'coap_server_trans_t.timeout', 'timer descriptor'], note=SRVN)
p('P13', 'Malformed and unexpected messages are rejected and never reach the handler',
  'Only requests reach the request handler, and only when they contain no unrecognised critical option; a request that does is answered 4.02. A datagram that cannot be decoded, an empty message and a response are answered by a reset with the same id when confirmable and by nothing otherwise.',
  ['histories', 'inputs'], 'every history; every decodable or undecodable datagram',
  'tests send a handful of bad messages in one state of the server',
  ['lib/src/coap_server.c'], ['coap_server_exchange', 'coap_server_trans_reject', 'coap_server_trans_handle_format_error', 'coap_server_trans_handle_bad_option'], note=SRVN)
p('P14', 'Server exchanges are bounded, isolated and fully released',
  'The server remembers at most eight clients, one exchange each; a ninth replaces the one inactive longest. An exchange is forgotten only after a failure, a rejected message, exhausted retransmission or for a ninth client. Whatever happens, timers, sockets, recorded messages and paths are released exactly once, a failed creation leaves nothing behind, nothing is used after release, and destroying the server releases everything.',
  ['histories', 'fault_sequences', 'schedules'], 'every history of events, with every system call and allocation allowed to fail',
  'descriptor and message leaks on error paths need a failure at a particular call in a particular state',
  ['lib/src/coap_server.c'], ['coap_server_trans_create', 'coap_server_trans_destroy', 'coap_server_find_oldest_trans', 'coap_server_create', 'coap_server_destroy', 'coap_server_listen'], note=SRVN)
p('P15', 'Block-wise transfers deliver exactly the body, in order and within bounds',
  'While the server handles a block-wise transfer, a received block is accepted only at the position where the previous one ended and only if it fits, and the body given to the application is exactly the accepted blocks in order, once, when the last one has arrived. Blocks sent are consecutive, full-sized except the last, labelled with their position and end with the body. Anything out of sequence, for another path or method, ends the transfer with an error, and no access leaves the transfer buffer.',
  ['histories', 'inputs'], 'every sequence of requests (method, path, block options present/absent/malformed, numbers, sizes, payload lengths) up to the bound; every body length',
  'the interesting sequences mix block sizes, repeated or skipped blocks and changed paths; tests transfer one body in order',
  ['lib/src/coap_server.c'], ['coap_server_trans_handle_blockwise', 'coap_server_trans_handle_next_block', 'coap_server_trans_clear_blockwise'], state=['coap_server_trans_t.body', 'body_end', 'block1_next', 'block2_next'],
  note='sequences of 3 GET or 2 PUT/POST requests (quick), 5 and 3 (thorough), all option and payload values symbolic, application block size 64, client sizes 32 and 1024; message coding modelled')
CLN = 'monitor composed with coap_client_create, one or two exchanges and coap_client_destroy; fixpoint over any number of received messages; received ids equal to or different from that of the request, tokens equal, different in one byte or of another length; with and without every failure; message coding replaced by a model of the coap_msg interface; UDP build'
p('P16', 'A client exchange succeeds only with the response to its own request',
  'coap_client_exchange returns success exactly when the last message received answers the request: same token, and either an acknowledgement with the id of the request (only while one is awaited) or a separate confirmable or non-confirmable message, free of unrecognised critical options; that message is what the caller gets. A reset, a malformed message or one that contradicts the request ends the exchange with an error; unrelated messages, duplicates of the acknowledgement and spurious wake-ups leave the exchange waiting.',
  ['inputs', 'histories', 'schedules'], 'every sequence of received messages (any type, code, id, token, options, malformed or not), expiries and failures, of any length',
  'matching must hold for every mix of stale, duplicated, reordered and forged messages; tests run fixed scripts',
  ['lib/src/coap_client.c'], ['coap_client_exchange', 'coap_client_exchange_con', 'coap_client_exchange_sep', 'coap_client_exchange_non', 'coap_client_match_token'], observe=['return value', 'response message'], note=CLN)
p('P17', 'A client repeats only unacknowledged requests, backing off, at most four times',
  'The client sends each request once with a fresh token. Only a confirmable request that has not been acknowledged is sent again, unchanged, when its timer expires: first after 2 to 3 seconds, then with doubled timeouts, at most four times, after which the exchange fails. After an acknowledgement and for non-confirmable requests nothing is repeated and waiting for the response is limited by a timer. The client never waits without a running timer.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of expiries and received messages',
  'a full back-off sequence takes about a minute; tests never lose messages at a chosen point',
  ['lib/src/coap_client.c'], ['coap_client_handle_ack_timeout', 'coap_client_listen_ack', 'coap_client_listen_resp', 'timer functions'], state=['coap_client_t.timeout', 'coap_client_t.num_retrans', 'timer descriptor'], observe=['datagrams sent', 'timer settings'], note=CLN)
p('P18', 'A client acknowledges the response it accepts and resets what it refuses',
  'While a client waits, a confirmable message it accepts as the response is acknowledged exactly once with an empty acknowledgement carrying its id, before success is reported; every other confirmable message, malformed ones included, is answered by exactly one empty reset carrying its id; acknowledgements, resets and non-confirmable messages are answered by nothing.',
  ['inputs', 'histories'], 'every message received in every state of an exchange',
  'tests cover a few unexpected messages in one state',
  ['lib/src/coap_client.c'], ['coap_client_send_ack', 'coap_client_reject', 'coap_client_handle_format_error', 'coap_client_handle_sep_response'], observe=['datagrams sent'], note=CLN)
p('P19', 'Client operations are memory-safe and release everything on every path',
  'No operation of the client reads or writes outside its buffers or uses uninitialised or released data, whatever is received. Creating a client either succeeds or leaves no descriptor, address list or memory behind, whichever step fails; an exchange leaves no message memory behind whether it succeeds or fails; destroying a client closes its socket and timer exactly once.',
  ['inputs', 'fault_sequences'], 'every received message, every failing system call and allocation',
  'leaks and stale accesses on error paths need a failure at a particular call',
  ['lib/src/coap_client.c'], ['coap_client_create', 'coap_client_destroy', 'coap_client_exchange', 'coap_client_recv'], note=CLN)
p('P20', 'Client block-wise transfers move exactly the body, in sequence and within bounds',
  'In a client block-wise transfer the blocks of the request body are sent consecutively without gap or overlap, full-sized except the last, labelled with their position and with the block size last agreed; the blocks of the response are requested in sequence and stored consecutively in the buffer of the caller, never beyond its end. A response that is out of sequence, lacks the block option, has the wrong payload size or does not fit ends the transfer with an error; a refusal ends it without data. The length returned is exactly the number of bytes stored, and a transfer that fails leaves no memory behind.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of responses up to the bound (code, block options present/absent/malformed, numbers, sizes, payload lengths); every body length; every allocation failure',
  'servers that resize, repeat, skip or overfill blocks do not occur in the tests',
  ['lib/src/coap_client.c'], ['coap_client_exchange_blockwise', 'coap_client_exchange_blockwise1', 'coap_client_exchange_blockwise2'], note='sequences of 4 responses (quick; 2 when both directions are transferred), 8 and 3 (thorough); block sizes 32 and 1024 on both sides; message coding modelled')
p('P21', 'URI functions are memory-safe, copy faithfully and round-trip every character',
  'Parsing, setting, copying, generating and destroying URIs never access memory outside the text or buffer, never use released memory and release every component exactly once, whatever the text and whichever allocation fails. A copy has exactly the components of its source, in memory of its own, and fails only for lack of memory. A URI whose components hold any character, generated into text and parsed again, has the same components. Generated text is terminated inside the buffer.',
  ['inputs', 'fault_sequences'], 'every text of up to 7 characters of any value, every component value, every allocation failure',
  'percent-encoding and delimiter handling must be right for every character in every component; tests use some twenty URIs',
  ['proxy/common/src/uri.c'], ['uri_parse', 'uri_generate', 'uri_copy', 'uri_set_*', 'uri_destroy'],
  note='texts of up to 7 characters (8 thorough), components of up to 5 when set, every single character in the round trip; buffers of every length around the text')
p('P22', 'The HTTP parser never leaves the received text and parses exactly what was sent',
  'Whatever bytes an HTTP peer sends, http_msg_parse reads and writes only inside the text and its own allocations, consumes no more than was received, terminates the body and releases everything. A well-formed message, with or without a body, by Content-Length or chunked with parameters and trailers, is parsed to exactly its start line, headers, trailers and body, consuming exactly its bytes even if more follow; cut short anywhere, it asks for more data (-EAGAIN). Negative or oversized lengths are refused.',
  ['inputs', 'fault_sequences'], 'every continuation of up to 5 to 7 bytes of each of nine beginnings; every message of the grammar; every allocation failure',
  'the text comes from the network; the dangerous ones are truncated, contradictory or have absurd lengths',
  ['proxy/common/src/http_msg.c'], ['http_msg_parse', 'http_msg_parse_start', 'http_msg_parse_headers', 'http_msg_parse_body', 'http_msg_destroy'],
  note='libc string functions replaced by exact byte-wise definitions')
p('P23', 'Generated HTTP text is exactly the message and stays inside the buffer',
  'http_msg_generate and the chunk, trailer and blank line generators return the length of the whole text, write exactly the message (start line, headers in order, blank line, body byte for byte) as far as it fits, terminate it inside the buffer and never write outside, for every buffer length including zero. Setting a start line, header or body again releases what was set before, and a failed setter leaves the message consistent.',
  ['inputs', 'fault_sequences'], 'every content of the parts, every buffer length around the boundaries, every allocation failure',
  'off-by-one errors show only at particular combinations of content length and buffer length',
  ['proxy/common/src/http_msg.c', 'proxy/common/src/util.c'], ['http_msg_generate', 'http_msg_generate_chunk', 'http_msg_generate_last_chunk', 'http_msg_generate_trailer', 'http_msg_generate_blank_line', 'http_msg_set_start', 'http_msg_set_header', 'http_msg_set_body', 'util_strncat'],
  note='parts of up to two bytes, up to two headers, bodies of up to two bytes; chunks of up to three bytes')
p('P24', 'The configuration parser is memory-safe, precise and keeps the last value set',
  'Whatever the text, config_parse stays inside it and inside its own buffers, ends with success or a defined error whose line exists in the text, and after config_destroy nothing remains allocated, whichever allocation fails. An assignment of a word, number or quoted text, in a section or not, with or without spaces, comment or final newline, is found by config_get with exactly its value. The last value successfully set for a section and name is the value read; a failed set keeps the previous value and other entries are not affected.',
  ['inputs', 'fault_sequences', 'histories'], 'every text of up to 4 characters, every continuation of five beginnings, every sequence of three settings, every allocation failure',
  'an unterminated last line, a token at a buffer boundary or a failed allocation do not occur in the tests',
  ['proxy/common/src/config.c'], ['config_parse', 'config_parser_lex', 'config_parser_next', 'config_parser_str_append', 'config_set', 'config_get', 'config_destroy'],
  note='5 characters thorough; libc string functions replaced by exact byte-wise definitions')
p('P25', 'Data buffers keep their content, and file and string helpers stay in bounds',
  'A data buffer never counts more than it can hold nor grows beyond its limit; adding counts exactly what was added, consuming moves exactly the remaining bytes to the front, expanding doubles the size and keeps the content or changes nothing. util_load_txt_file returns a terminated text of exactly the file length or nothing, closes the file and releases everything on every failure. util_strncpy and util_strncat never write outside the destination, terminate it and return the full length.',
  ['inputs', 'fault_sequences'], 'every buffer state (count, size, limit up to 2^40), every amount, every failing call',
  'the invariant must survive every sequence of operations with every amount',
  ['proxy/common/src/data_buf.c', 'proxy/common/src/util.c'], ['data_buf_create', 'data_buf_add', 'data_buf_consume', 'data_buf_expand', 'util_load_txt_file', 'util_strncpy', 'util_strncat'],
  note='content comparison with buffers of up to 4 bytes, texts of up to 4 characters, files of up to 3 bytes; bounds and counts for every size')
p('P26', 'The proxy translates requests and responses faithfully between HTTP and CoAP',
  'An HTTP request becomes a confirmable CoAP request with the same method, one Uri-Host, Uri-Port, Uri-Path and Uri-Query option per non-empty part of its URI in order, an option per understood header and the same body: as payload up to 1024 bytes, else in the transfer buffer if it fits. A CoAP response becomes an HTTP response whose status corresponds to its code (2.xx 200 or 304, 4.xx and 5.xx the same or closest error), with the same body, its length and a header per understood option. Anything else is refused with an HTTP error code (unknown methods 501, unusable responses 502). No buffer is exceeded and nothing leaks, whatever the lengths.',
  ['inputs'], 'every request and response of a bounded grammar with any characters; every response code; every option and body length for the bounds',
  'each table entry and each length boundary matters; tests try a few per direction',
  ['proxy/common/src/cross.c'], ['cross_req_http_to_coap', 'cross_resp_coap_to_http', 'cross_uri_http_to_coap', 'cross_uri_coap_to_http'],
  note='parts of one character, up to three path segments and two query parts, one header or option at a time; analysed together with uri.c, http_msg.c and coap_msg.c')
p('P27', 'The proxy answers every HTTP request once, with the answer of the server named',
  'On a proxy connection, every complete HTTP request is forwarded exactly once, with its method and body, to the CoAP server named in its URI (again in blocks if the server asks for it; the connection to the server is reused only for the same host and port), and is answered exactly once before the next is read: with the translated answer of that server, its body being what the server sent, or with an error: the one the translation calls for, 504 if the server does not answer, 502 if its answer is not understood, 501 otherwise, and an error if the URI names no server. The whole response is sent. A request split over reads is assembled until it is complete or too long. When the connection ends, its sockets, buffers and messages are released exactly once.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of two requests (any method, target, body, split) with every outcome of every exchange, translation, read, write and allocation',
  'stale state of an earlier request, boundary lengths and failures in the middle of a request do not occur in the tests, which never run a connection',
  ['proxy/http_coap/src/connection.c', 'proxy/common/src/data_buf.c'], ['connection_thread_func', 'connection_exchange', 'connection_recv', 'connection_process', 'connection_coap_exchange', 'connection_send', 'connection_new', 'connection_delete'],
  note='HTTP and CoAP messages, TLS socket, URI and translation modelled by their contracts (P20 to P26); three requests thorough')
