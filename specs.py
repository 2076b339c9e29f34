"""Properties -> analysis jobs."""
INCLUDES = ['lib/include', 'proxy/common/include', 'proxy/http_coap/include', 'sample/reg_server', 'sample/reg_client', 'sample/time_server', 'sample/time_client', 'sample/transfer_server', 'sample/transfer_client']
TRUSTED = ['clang 18 front end and sroa/mem2reg', '/verif/engine (abstract interpreter, floating point simplex)', '/verif/harness (environment stubs)']
AI = 'abstract interpretation of the LLVM IR (linear-inequality numeric domain, cell/points-to memory domain, typestate of every allocation, fixpoints with widening at loops)'
MSG = 'lib/src/coap_msg.c'
MEM = 'lib/src/coap_mem.c'
POOLS = '@harness/pools.c'
POOLS_OK = (POOLS, ['-DPOOL_MAY_FAIL=0'])
EXACT = ['-unroll', '8', '-group', '100000', '-cap', '100000']
OPS = ['-unroll', '8', '-group', '1000', '-cap', '100000']
LISTS = ['-unroll', '20', '-group', '1000', '-cap', '100000']
PROPS = {}
def prop(pid, level, rule, jobs, explain=AI, **kw):
    d = dict(level=level, rule=rule, explain=explain, jobs=jobs); d.update(kw); PROPS[pid] = d
def J(name, src, **kw):
    d = dict(name=name, src=src); d.update(kw); return d
def ops(entry, may_fail=False, **kw):
    return J(entry + ('_fail' if may_fail else ''), [MSG, '@harness/ops.c', POOLS if may_fail else POOLS_OK], flags=['-DVP_MAY_FAIL=1'] if may_fail else [], entry=entry, opts=OPS, **kw)

prop('P01', 'other', 'every load, store, copy and release reachable from the parser is in bounds, initialised and live, for a datagram of any length and any content and any pool state; no more options are decoded than the datagram has bytes; every pool block is returned by the destructor',
     [J('parse', [MSG, '@harness/msg_parse.c', POOLS])])
prop('P02', 'other', 'every write of the formatter stays inside the buffer of the given length; on success the returned length is the length of the encoding; failure only when the encoding does not fit',
     [J('format1', [MSG, '@harness/msg_rt.c', POOLS_OK], flags=['-DNOPS=1'], opts=EXACT, weight=15),
      J('format2', [MSG, '@harness/msg_rt.c', POOLS_OK], flags=['-DFIX_HDR', '-DNOPS=2'], opts=EXACT, weight=2)])
prop('P03', 'other', 'the parser accepts exactly the datagrams a reference decoder of RFC 7252 accepts and yields exactly its fields, checked on every path of the product of both programs',
     [J('ref1', [MSG, '@harness/msg_ref.c', POOLS_OK], flags=['-DMAXOPS=1'], opts=EXACT, weight=3),
      J('ref2', [MSG, '@harness/msg_ref.c', POOLS_OK], flags=['-DFIX_HDR', '-DMAXOPS=2'], opts=EXACT, weight=2),
      J('ref3', [MSG, '@harness/msg_ref.c', POOLS_OK], flags=['-DFIX_HDR', '-DMAXOPS=3'], opts=EXACT, weight=20, thorough=True)])
prop('P04', 'other', 'the bytes written by the formatter, read by a reference decoder of RFC 7252, are exactly the message that was built: options in ascending order, equal numbers in insertion order',
     PROPS['P02']['jobs'] + [J('format3', [MSG, '@harness/msg_rt.c', POOLS_OK], flags=['-DFIX_HDR', '-DNOPS=3'], opts=EXACT, weight=120, time=600, thorough=True)])
prop('P05', 'other', 'encode and decode of block option values agree with NUM*16+M*8+SZX for every number, flag, size and length, everything else is refused; the first block option of the requested kind decides',
     [J('codec', [MSG, '@harness/block.c', POOLS], opts=OPS), ops('h_block')])
prop('P06', 'other', 'inductive step over every allocator state: an allocation returns a free, distinct, in-range block, a release makes exactly that block available, foreign pointers are ignored',
     [J('pool', [MEM, '@harness/mem.c'], opts=LISTS), J('free', [MEM, '@harness/mem_free.c'], opts=LISTS), J('all', [MEM, '@harness/mem_all.c'], opts=LISTS)])
prop('P07', 'other', 'typestate of every pool block over set, clear, copy, reset and destroy with every allocation allowed to fail; copies are equal and disjoint',
     [ops('h_copy'), ops('h_copy', True), ops('h_set'), ops('h_set', True)])
prop('P08', 'other', 'the reported option is the first unrecognised critical (odd) / unsafe (bit 1) option for every option list',
     [ops('h_class'), ops('h_critical'), ops('h_unsafe')])
prop('P09', 'other', 'the string built from the path options is terminated, never exceeds the buffer, and is the slash-joined path whenever it fits',
     [ops('h_path')])

# ---- server: the whole event loop against a monitor
SRV = 'lib/src/coap_server.c'
SRVFL = ['-DPOOL_MAY_FAIL=0', '-DPOOL_FIXED=2048', '-include', 'fdset.h']
def srv(name, fl, tags=None, kinds=None, **kw):
    d = J(name, [SRV, '@harness/server.c', '@harness/msgmodel.c', POOLS], flags=SRVFL + fl, **kw)
    if tags: d['tags'] = tags
    if kinds: d['kinds'] = kinds
    return d
def srvjobs(tags=None, kinds=None, evict=False):
    t = [srv('history', [], tags, kinds, opts=['-unroll', '1'], time=600, weight=130),
         srv('faults', ['-DFAULTS=1', '-DEVENTS=2'], tags, kinds, opts=['-unroll', '10'], weight=14),
         srv('two-clients', ['-DCLIENTS=2', '-DEVENTS=2'], tags, kinds, opts=['-unroll', '10'], weight=20),
         srv('faulty-history', ['-DFAULTS=1'], tags, kinds, opts=['-unroll', '1'], time=2400, weight=500, thorough=True),
         srv('two-clients-3', ['-DCLIENTS=2', '-DEVENTS=3'], tags, kinds, opts=['-unroll', '10'], time=2400, weight=300, thorough=True)]
    if evict: t.append(srv('ninth-client', ['-DCLIENTS=9', '-DEVENTS=10', '-DEVICT', '-DMM_ONLYREQ=1', '-DMM_PATHS=0'], tags, kinds, opts=['-unroll', '12']))
    return t
ONLY = ['assert']
prop('P10', 'other', 'in every history of datagrams and timer expiries, a request with the message id of the recorded exchange of its client never reaches the handler and is answered from the record (monitor composed with the whole event loop, fixpoint over the loop)',
     srvjobs(['duplicate'], ONLY))
prop('P11', 'other', 'in every history, each response has the type, message id, token and destination the request calls for, exactly one per acceptable request, and the bytes sent are the encoded message',
     srvjobs(['response', 'exactly the encoded', 'goes to the client', 'peer address', 'handler is called once', 'handler sees', 'acknowledgement$', 'acknowledgement carries', 'acknowledged once', 'exchange is remembered'], ONLY))
prop('P12', 'other', 'in every history, the acknowledgement timer runs exactly while a confirmable response is unanswered, doubles from 2-3 s, and at most four identical retransmissions are sent',
     srvjobs(['retransm', 'timer', 'timeout', 'acknowledged or reset', 'one-shot', 'acknowledged$'], ONLY))
prop('P13', 'other', 'in every history, only requests without unrecognised critical options reach the handler; malformed and non-request messages get a reset if confirmable and nothing otherwise; bad options get 4.02',
     srvjobs(['malformed', 'not a request', 'reset', 'only requests', 'unrecognised critical', 'bad option', 'response is sent for a request'], ONLY))
prop('P14', 'other', 'in every history, every access is in bounds and initialised, every descriptor, message and path is released exactly once, every watched descriptor is open, and an exchange is dropped only for a stated reason',
     srvjobs(['descriptor', 'closed', 'forgotten', 'one transaction', 'eight transactions', 'leaves nothing', 'ninth', 'watched', 'open', 'shutdown', 'released', 'creation', 'room for'], None, True))
BLKTAGS = ['Block[12]', 'block sent', 'taken from', 'in sequence', 'last block', 'no block', 'followed by', 'transfer in progress', 'forgotten', 'well-formed blocks', 'expected position', 'handed over', 'in its place']
def srvblk(m, o, b, ev, **kw):
    return srv('block-%s-%d' % (m, ev), ['-DPOOL_LARGE=2048', '-DMM_ONLYREQ=%d' % {'get': 1, 'post': 2, 'put': 3}[m], '-DMM_OTHER=%d' % o, '-DMM_BLOCK=%d' % b, '-DEVENTS=%d' % ev], opts=['-unroll', '10'], tags=BLKTAGS if m == 'get' else BLKTAGS + ['block received', 'body received'], **kw)
prop('P15', 'other', 'in every sequence of requests of a block-wise transfer, blocks are accepted and sent only in sequence, stay inside the transfer buffer, and the body handed to the application is exactly the accepted blocks',
     [srvblk('get', 4, 2, 3, weight=40), srvblk('put', 1, 1, 2, weight=60), srvblk('post', 3, 1, 2, weight=60), srvblk('get', 4, 2, 5, thorough=True, weight=200, time=2400), srvblk('put', 1, 1, 3, thorough=True, weight=250, time=2400), srvblk('post', 3, 5, 2, thorough=True, weight=320, time=2400)])

# ---- client: one exchange against any environment
CLI = 'lib/src/coap_client.c'
CLIFL = ['-DPOOL_FIXED=256', '-DMM_RAND', '-DMM_HEADER', '-DMM_BADTYPE=v_choice(2)', '-DMM_KINDS=0', '-include', 'fdset.h']
def cli(name, fl, tags, kinds, **kw):
    d = J(name, [CLI, '@harness/client.c', '@harness/msgmodel.c', POOLS], flags=CLIFL + fl, opts=['-unroll', '1'], tags=tags, **kw)
    if kinds: d['kinds'] = kinds
    return d
def clijobs(tags, kinds=None, non=None):
    non = tags if non is None else non
    t = [cli('confirmable', ['-DREQTYPE=0'], tags, kinds, weight=25), cli('confirmable-faults', ['-DREQTYPE=0', '-DFAULTS=1'], tags, kinds, weight=80)]
    if non: t += [cli('non-confirmable', ['-DREQTYPE=1'], non, kinds, weight=3), cli('non-confirmable-faults', ['-DREQTYPE=1', '-DFAULTS=1'], non, kinds, weight=8)]
    t.append(cli('requests-and-tokens', ['-DREQTYPE=0', '-DMM_CLASS=0', '-DMM_TOKENS=v_choice(4)'], tags, kinds, weight=120, time=1200, thorough=True))
    t.append(cli('two-exchanges', ['-DEXCHANGES=2'], tags, kinds, weight=310, time=1800, thorough=True))
    return t
prop('P16', 'other', 'for every sequence of received messages, expiries and failures during an exchange, success is reported exactly when the message just received is a response to the request (token, and id if it is an acknowledgement) without unrecognised critical options, and that message is what the caller gets',
     clijobs(['exchange succeeds', 'matching response', 'malformed, reset', 'unrelated message', 'handed over', 'without a request', 'zero or', 'carries a token', 'response accepted'], ONLY))
CRE = ['request is sent', 'retransm', 'timeout', 'timer', 'one-shot', 'expiry', 'waiting', 'time is over', 'encoded message', 'watched', 'request sent']
prop('P17', 'other', 'for every sequence of events, the request is sent once and repeated unchanged only on expiry of the acknowledgement timer while unacknowledged, at most four times with doubling timeouts from 2-3 s; the client never waits without a running timer',
     clijobs(CRE, ONLY, ['request is sent', 'retransmitted only', 'timer', 'one-shot', 'expiry does not', 'waiting follows', 'time is over', 'encoded message', 'watched', 'request sent', 'timeout$']))
prop('P18', 'other', 'for every message received while waiting: an accepted confirmable response is acknowledged once with its id, any other confirmable message is reset once with its id, nothing else is ever sent',
     clijobs(['unasked', 'answer to a message', 'only a confirmable', 'only an accepted', 'acknowledged once', 'reset', 'acknowledgement$'], ONLY))
prop('P19', 'other', 'every access of the client is in bounds and initialised; socket, timer, address list and messages are released exactly once on every path including every failure',
     clijobs(['closed', 'descriptor', 'nothing open', 'one socket', 'creation', 'exchange over', 'timer is open', 'datagram addresses']))
def cblk(m, b, ev, fl=[], **kw):
    t = ['a block is taken', 'in sequence', 'Block1', 'followed by more', 'last block', 'negotiated', 'method of the request', 'transfer stops', 'transfer ends', 'unusable response', 'refused', 'complete', 'length returned', 'no data', 'stored at its place', 'encoded message', 'one response', 'transfer over']
    if b & 2: t += ['block received', 'block requested']
    if m != 1: t += ['block sent', 'body sent']
    return J('%s-%s%d%s' % ({1: 'get', 2: 'post', 3: 'put'}[m], 'both-' if b == 3 else '', ev, '-faults' if '-DFAULTS=1' in fl else ''), [CLI, '@harness/clientblk.c', '@harness/msgmodel.c', POOLS],
             flags=['-DPOOL_FIXED=256', '-DMM_RAND', '-DMM_HEADER', '-DMM_RESPONSE', '-include', 'fdset.h', '-DMETHOD=%d' % m, '-DMM_BLOCK=%d' % b, '-DEVENTS=%d' % ev] + (['-DSIZE1=32'] if m == 1 else ['-DSIZE2=32']) + fl, opts=['-unroll', '10'], tags=t, **kw)
prop('P20', 'other', 'for every sequence of responses, the blocks of the body are sent and the blocks of the response are requested and stored exactly in sequence and within the body, the transfer stops at the first refusal or unusable response, and the length returned is what was received',
     [cblk(1, 10, 4, weight=12), cblk(3, 1, 4, weight=12), cblk(2, 1, 3, weight=6), cblk(3, 3, 2, weight=60), cblk(1, 10, 2, ['-DFAULTS=1'], weight=3), cblk(3, 3, 1, ['-DFAULTS=1'], weight=8),
      cblk(1, 10, 8, weight=60, thorough=True, time=1200), cblk(3, 1, 8, weight=60, thorough=True, time=1200), cblk(2, 3, 3, weight=300, thorough=True, time=1800)])

# ---- proxy: texts (bounded length, every content) and buffers
PX = 'proxy/common/src/'
TXT = ['-unroll', '100', '-group', '100000', '-cap', '100000']
def T(name, src, entry, flags=[], opts=TXT, **kw):
    return J(name, src, flags=flags, entry=entry, opts=opts, **kw)
UJ = ['-unroll', '12', '-group', '6', '-cap', '100000']
U = [PX + 'uri.c', '@harness/uri.c', '@harness/str.c']
prop('P21', 'other', 'every access of the URI functions is in bounds, initialised and live and every string is released exactly once, for every text of bounded length; a copy equals its source; a generated URI, parsed again, yields the same components for every character',
     [T('parse', U, 'h_parse', ['-DMAXLEN=7'], UJ, weight=15), T('set', U, 'h_set', ['-DMAXLEN=5'], UJ, weight=3), T('copy', U, 'h_copy', ['-DMAXLEN=1'], ['-unroll', '12', '-group', '6', '-cap', '100'], weight=13), T('copy-memory', U + ['@harness/nofail.c'], 'h_copy', ['-DMAXLEN=1', '-DNOFAIL', '-include', 'nofail.h'], ['-unroll', '12', '-group', '6', '-cap', '100'], weight=6),
      T('round', U + ['@harness/nofail.c'], 'h_round', ['-DEXACTSTR', '-include', 'nofail.h'], ['-unroll', '300', '-group', '100000', '-cap', '100000'], weight=8),
      T('parse8', U, 'h_parse', ['-DMAXLEN=8'], UJ, weight=60, thorough=True, time=600)]
     + [T('generate-%s' % n, U, 'h_generate', ['-DMAXLEN=2', '-DFIELD=%d' % k], ['-unroll', '12', '-group', '6', '-cap', '100'], weight=2) for k, n in enumerate(['scheme', 'userinfo', 'host', 'port', 'path', 'query', 'fragment'])])
HT = [PX + 'http_msg.c', PX + 'util.c', '@harness/http.c', '@harness/xstr.c']
XS = ['-include', 'xstr.h']
def hp(name, pre, n, cap='100', fl=[], **kw):
    return T('parse-' + name, HT, 'h_parse', ['-DN=%d' % n, '-DPRE="%s"' % pre] + fl + XS, ['-unroll', '60', '-group', '6', '-cap', cap], **kw)
L, CH = 'P U V\\r\\n', 'P U V\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n'
prop('P22', 'other', 'for every received text (fixed beginnings followed by every content of bounded length), every access of the parser is in bounds, initialised and live, no more is consumed than was received, the body is terminated and inside the text, and everything is released exactly once',
     [hp('start', '', 7, fl=['-DNOPARSED=1']), hp('header', L, 6), hp('two-headers', L + 'a:b\\r\\n', 6), hp('length', L + 'Content-Length: 3\\r\\n\\r\\n', 6), hp('any-length', L + 'Content-Length: ', 6, '100000'), hp('chunk', CH, 5, '100000', weight=6), hp('chunk-huge', CH + '7fffff', 5, fl=['-DNOPARSED=1']), hp('second-chunk', CH + '1\\r\\na\\r\\n', 5, '100000', weight=6), hp('trailer', CH + '1\\r\\na\\r\\n0\\r\\n', 5, '100000'),
      T('again', HT, 'h_again', XS)]
     + [T('valid-%s' % n, HT + ['@harness/nofail.c'], 'h_valid', ['-DKIND=%d' % k, '-include', 'nofail.h'] + XS, ['-unroll', '300', '-group', '100000', '-cap', '100000'], weight=k) for k, n in enumerate(['plain', 'length', 'chunk', 'chunks'])]
     + [T('cut-%s' % n, HT + ['@harness/nofail.c'], 'h_valid', ['-DKIND=%d' % k, '-DCUT=%d' % c, '-include', 'nofail.h'] + XS, ['-unroll', '300', '-group', '100000', '-cap', '100000'], weight=k) for k, (n, c) in enumerate([('plain', 8), ('length', 24), ('chunk', 30), ('chunks', 40)])]
     + [hp('header8', L, 8, thorough=True, weight=60, time=600)])
prop('P23', 'other', 'the text generated is exactly the message, its length is reported, and no byte outside the buffer is written, for every content of bounded length and every buffer length around the boundaries',
     [T('message', HT, 'h_generate', XS, weight=2), T('chunk', HT, 'h_chunk', XS), T('again', HT, 'h_again', XS)])
CF = [PX + 'config.c', '@harness/config.c', '@harness/xstr.c']
def cf(name, pre, n, opts=TXT, **kw):
    return T('parse-' + name, CF, 'h_parse', ['-DN=%d' % n, '-DPRE="%s"' % pre] + XS, opts, **kw)
LONG = ['-unroll', '300', '-group', '100000', '-cap', '100000']
prop('P24', 'other', 'for every configuration text (fixed beginnings followed by every content of bounded length), every access is in bounds, initialised and live, everything is released exactly once, errors are reported with a line of the text, a well-formed assignment yields exactly its value and the last value set is the value read',
     [cf('any', '', 4, weight=6), cf('value', '[s]\\na=', 3), cf('section', 'a=1\\n[s', 3), cf('quote', 'a=\\"', 3), cf('long-value', 'a=\\"' + 'x' * 62, 2, LONG, weight=4), cf('long-section', '[' + 'x' * 62, 3, LONG, weight=10),
      T('set', CF, 'h_set', XS, weight=4), T('value', CF + ['@harness/nofail.c'], 'h_value', ['-include', 'nofail.h'] + XS, weight=2), cf('any5', '', 5, weight=60, thorough=True, time=600)])
FIO = ['-include', 'fileio.h']
prop('P25', 'other', 'inductive step over every buffer state: stored data is never lost, exceeded or moved wrongly; a loaded file is terminated, closed and released; strings are bounded and terminated',
     [T('buffer', [PX + 'data_buf.c', '@harness/databuf.c'], 'h_ops', opts=None), T('buffer-content', [PX + 'data_buf.c', '@harness/databuf.c'], 'h_ops', ['-DSMALL']),
      T('file', [PX + 'util.c', '@harness/util.c'], 'h_load', FIO, None), T('file-content', [PX + 'util.c', '@harness/util.c'], 'h_load', FIO + ['-DSMALL']), T('strings', [PX + 'util.c', '@harness/util.c'], 'h_str', FIO)])
CX = [PX + 'cross.c', PX + 'http_msg.c', PX + 'util.c', MSG, '@harness/cross.c', POOLS]
CXE = CX + [PX + 'uri.c', '@harness/xstr.c', '@harness/nofail.c']
CXF = ['-DPOOL_MAY_FAIL=0', '-DPOOL_FIXED=2048']
def cx(e, **kw): return T(e, CXE, 'h_' + e, CXF + ['-include', 'nofail.h'] + XS, **kw)
prop('P26', 'other', 'for every request and response built from the parts of a bounded grammar, the converted message has exactly the method, options, status, headers and body the original calls for, anything else is refused with an HTTP error code; every access is in bounds for options and bodies of any length',
     [cx('uri', weight=4), cx('req', weight=2), cx('resp'), cx('respbody', weight=5), cx('back'),
      T('long', CX, 'h_long', CXF + ['-DSTUB_URI'], OPS), T('headers', CX, 'h_headers', CXF + ['-DSTUB_URI'], OPS)])

# ---- the proxy connection: any HTTP client, any CoAP server
CONF = ['-DCOAP_DTLS_EN', '-DCOAP_IP6', '-DSOCK_IP6', '-include', 'fdset.h', '-DGENMAX=4000', '-DREADS=1']
def con(name, fl, opts=['-unroll', '1', '-group', '100000', '-cap', '100000'], nofail=True, **kw):
    return J(name, ['proxy/http_coap/src/connection.c', PX + 'data_buf.c', '@harness/conn.c', '@harness/nofail.c'], entry='h_conn', flags=[f for f in CONF if not any(f.split('=')[0] == g.split('=')[0] for g in fl)] + fl + (['-include', 'nofail.h'] if nofail else ['-DFAULTS=1']), opts=opts, **kw)
METH = [(1, 'get'), (2, 'post'), (3, 'put'), (4, 'delete')]
SEP = ['-unroll', '20', '-group', '100000', '-cap', '100000']
prop('P27', 'other', 'in every sequence of requests on a connection, each request is forwarded once with its method and body to the server it names, and answered once and completely with the translated answer of that server or the error the failure calls for; every access is in bounds and everything is released when the connection ends (monitor composed with the connection loop)',
     [con(n, ['-DMETHOD=%d' % m], weight=2) for m, n in METH] + [con('faults-' + n, ['-DMETHOD=%d' % m], nofail=False, weight=4) for m, n in METH]
     + [con('ports', ['-DMETHOD=4', '-DHOSTS=0', '-DREQS=3'], weight=3), con('long-request', ['-DSIMPLE=1', '-DREQS=1', '-DREADS=4', '-DGENMAX=(1L<<20)'], SEP, weight=3), con('long-responses', ['-DSIMPLE=1', '-DREADS=2', '-DGENMAX=(1L<<20)'], SEP, weight=3),
        con('get-3', ['-DMETHOD=1', '-DREQS=3', '-DREADS=2'], thorough=True, weight=30, time=600)])

# the block-wise operations of the client under the memory rules of P19 (bounds, initialisation, release)
for j in [j for j in PROPS['P20']['jobs'] if j['weight'] < 30]:
    PROPS['P19']['jobs'].append(dict(j, name='block-' + j['name'], tags=['transfer over']))
