#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
AI = 'static analysis: abstract interpretation of the LLVM IR built from the current tree (own engine: linear-inequality domain, memory/typestate domain, loop fixpoints with widening)'
def p(pid, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, technique=AI, level='other', note='', na=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': m, 'where': files[0]} if isinstance(m, str) else {'name': m[0], 'where': m[1]} for m in mechanism]}
    if state: a['state'] = [x if isinstance(x, dict) else {'name': x, 'where': files[0]} for x in state]
    if observe: a['observe_at'] = observe
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
    if na: NA.append({'property': pid, 'reason': na}); return
    P[-1]['_'] = (technique, level, note)

p('P01', 'Decoding any datagram is memory safe and leaks nothing',
  'Decoding a received datagram of any length and content never reads outside the datagram, never accesses memory outside the storage it obtained, and decodes no more options than the datagram has room for. Whether the datagram is accepted or rejected, and whichever storage request fails, destroying the message afterwards returns every block of message storage it took, to the pool it came from.',
  ['inputs', 'fault_sequences'], 'every byte string as datagram, every pool block size, every pattern of allocation failures',
  'tests decode about a dozen hand written datagrams; the dangerous ones are truncations and extended option headers at every offset',
  ['lib/src/coap_msg.c'], ['coap_msg_parse and the functions it calls', 'option allocation/deallocation', 'coap_msg_destroy'],
  note='unbounded datagram length and number of options (loop fixpoint); pool allocators replaced by nondeterministic ones (their own correctness is P06)')
p('P02', 'Encoding never writes beyond the buffer and fails only for lack of space',
  'Encoding a message into a buffer of any length never writes outside that buffer, and when it succeeds it returns the exact number of bytes of the encoding. A message that the protocol allows is refused only when its encoding does not fit; an empty message with a token, options, a payload or non-confirmable type, and a reset carrying a code, are always refused.',
  ['inputs'], 'every buffer length, every header, token, payload length and every option number and length',
  'tests encode a few messages into a large buffer; the errors sit at the exact buffer-length and option-length boundaries (12/13, 268/269)',
  ['lib/src/coap_msg.c'], ['coap_msg_format', 'option header size computation', 'consistency check of the message'],
  note='all values symbolic; at most 1 option with arbitrary header/payload, 2 with a fixed header (quick), 3 (thorough in P04)')
p('P03', 'Only well-formed datagrams are accepted and every field is decoded faithfully',
  'A datagram is accepted exactly when it is a well-formed CoAP message of version 1: valid token length, no truncated or reserved option header, no payload marker without payload, and a code class that may be received. The type, code, message id, token, every option number, length and value, and the payload of an accepted message are exactly those in the datagram.',
  ['inputs'], 'every datagram (any content and length) containing a bounded number of options',
  'the accept/reject boundary is a language over all byte strings; tests sample single points of it',
  ['lib/src/coap_msg.c'], ['coap_msg_parse', 'option delta/length decoding', 'coap_msg_check'],
  note='product of the parser with an independent reference decoder; datagrams with up to 1 option and arbitrary header, 2 options (quick) and 3 options (thorough) behind a fixed header; storage allocation succeeds')
p('P04', 'Encoded messages decode to exactly the message that was built',
  'The bytes produced for a message decode, by an independent reading of the standard, to exactly its type, code, message id, token, options and payload. Options appear in ascending number order with options of equal number in the order they were added, whatever the order of insertion.',
  ['inputs', 'histories'], 'every option number, length and insertion order, every header, token and payload',
  'option deltas and lengths have three encodings each with boundaries that interact; tests use a few fixed combinations',
  ['lib/src/coap_msg.c'], ['coap_msg_add_op', 'coap_msg_format', 'option list insertion'],
  note='option numbers 0..65535, lengths 0..65000; at most 1 option with arbitrary header, 2 (quick) and 3 (thorough) with a fixed one')
p('P05', 'Block option values encode and decode consistently, all else is refused',
  'A block number, more flag and block size encode to the standard value NUM*16+M*8+SZX in the requested 1 to 3 bytes and decode back to the same triple; values that cannot be represented, values longer than three bytes and the reserved size are refused. Looking up a block option in a message reports absence, or decides by the first option of the requested kind.',
  ['inputs'], 'every block number, size, flag, value length and value bytes',
  'off-by-one at 2^4, 2^12 and 2^20 block numbers and sign errors of single bytes are not sampled',
  ['lib/src/coap_msg.c'], ['coap_msg_op_format_block_val', 'coap_msg_op_parse_block_val', 'coap_msg_parse_block_op'],
  note='exact over the whole value domain')
p('P06', 'Fixed-size pools never hand out a block twice or outside the pool',
  'An allocation from a pool returns a block that lies entirely within the pool, is large enough, is not currently allocated and starts at a block boundary, or fails only when the request is larger than a block or no block is free. Releasing a block makes exactly that block available again and changes no other block; releasing a pointer outside the pool changes nothing.',
  ['histories', 'inputs'], 'every history of allocations and releases (every reachable allocator state), every request size',
  'the state space is the set of all allocation bitmaps; tests allocate everything once in order',
  ['lib/src/coap_mem.c'], ['coap_mem_alloc', 'coap_mem_free', 'coap_mem_create', 'small, medium and large wrappers'],
  note='inductive: one operation from an arbitrary allocator state; exact block counts/lengths bounded as in DESIGN.md')
p('P07', 'Messages own their storage: copies are independent, nothing leaks',
  'Setting, replacing or clearing the payload or token, copying a message, resetting it and destroying it keep every message well formed, and a destroyed message has returned every block it ever took, even when storage runs out half-way. A copy has the same fields as the original and shares no storage with it; refused values change nothing.',
  ['histories', 'fault_sequences', 'inputs'], 'every field value, every option list up to the bound, every allocation failure pattern',
  'leaks and double releases appear only when a particular allocation fails; tests never exhaust the pools',
  ['lib/src/coap_msg.c'], ['coap_msg_set_payload', 'coap_msg_copy', 'coap_msg_reset', 'coap_msg_destroy', 'setters'],
  note='messages with up to 2 options')
p('P08', 'Unrecognised critical and unsafe options are always detected',
  'Checking a message for critical options reports the first option with an odd number that is not defined by the supported standards, and nothing when there is none; checking for unsafe options does the same for options whose number has bit 1 set. The recognised set is exactly that of the CoAP and block-wise transfer standards.',
  ['inputs'], 'every option number and every option list up to the bound',
  'a missing or extra entry in the table only shows for that one option number',
  ['lib/src/coap_msg.c'], ['coap_msg_op_num_is_recognized', 'coap_msg_check_critical_ops', 'coap_msg_check_unsafe_ops'],
  note='option lists of up to 2 options, all numbers 0..65535')
p('P09', 'Path reconstruction is bounded and faithful',
  'Building the path string of a message never writes outside the given buffer and always terminates the string. The returned length is that of the whole path, and when the path fits the buffer holds each segment preceded by a slash, or a single slash when there is none.',
  ['inputs'], 'every buffer length, every option list up to the bound, every segment length',
  'the off-by-one cases are at buffer length equal to path length',
  ['lib/src/coap_msg.c'], ['coap_msg_uri_path_to_str'],
  note='up to 2 options, segments up to 600 bytes')
exec(open(os.path.join(HERE, 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'props_more.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if k != '_'}) + '\n')
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C /verif/engine', 'checks': [], 'not_applicable': NA}
for x in P:
    if '_' not in x: continue
    t, l, n = x['_']
    m['checks'].append({'property': x['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % x['id'], 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % x['id'], 'technique': t, 'level': l, 'level_note': n or 'see DESIGN.md'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
