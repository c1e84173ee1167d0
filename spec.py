"""Properties, their jobs (solver queries) and bounds."""
from vp import Job, SCALAR, SSE, AVX2

PROPS = {}
_J = {}
Q, T = ('quick', 'thorough'), ('thorough',)


def prop(pid, explain='', assumptions=()):
    PROPS[pid] = {'explain': explain, 'assumptions': list(assumptions)}
    def deco(fn):
        _J[pid] = fn
        return fn
    return deco


def jobs(pid, tier):
    out = [j for j in _J[pid]() if tier in j.tiers]
    for j in out:
        if tier == 'thorough': j.timeout = max(j.timeout * 5, 900)
    return out


SIMD = (('avx2', AVX2), ('sse', SSE), ('scalar', SCALAR))
LOCKS = ['-Dpthread_%s=vp_%s' % (x, x) for x in ('rwlock_rdlock', 'rwlock_wrlock', 'rwlock_unlock', 'rwlock_init', 'rwlock_destroy', 'mutex_init', 'mutex_destroy', 'mutexattr_init', 'mutexattr_settype', 'mutexattr_destroy', 'mutex_lock', 'mutex_unlock', 'cond_signal', 'cond_broadcast', 'cond_wait')]
HASHED = ('shadow/alloc.h', 'shadow/hash_pre.h')
FRAME = ['src/frame.c']


@prop('P01', 'frame parser driven on exact-size heap buffers; reference decoder written from RFC 6455 section 5.2')
def p01():
    js = []
    for n in range(1, 21):
        js.append(Job('any-len%d' % n, 'h_parse.c', FRAME, ['MODE=0', 'L_=%d' % n], simd=SCALAR, unwind=max(n, 8) + 3, timeout=150, tiers=Q if n <= 16 else T,
                      bounds='every buffer of %d bytes, every start offset' % n))
    for (pn, form, masked, pre, post, cut) in [(0, 7, 1, 0, 0, 0), (5, 7, 1, 3, 4, 0), (33, 7, 1, 1, 0, 0), (125, 7, 1, 0, 2, 0), (125, 7, 0, 2, 0, 0), (126, 16, 1, 0, 1, 0),
                                               (3, 16, 1, 0, 0, 0), (2, 64, 1, 1, 1, 0), (200, 16, 1, 5, 0, 0), (130, 64, 0, 0, 0, 0), (126, 16, 1, 0, 0, 1), (60, 7, 1, 2, 0, 60), (256, 16, 1, 0, 0, 0)]:
        js.append(Job('shape-n%d-f%d-m%d-pre%d-post%d-cut%d' % (pn, form, masked, pre, post, cut), 'h_parse.c', FRAME,
                      ['MODE=1', 'PN=%d' % pn, 'FORM=%d' % form, 'MASKED=%d' % masked, 'PRE=%d' % pre, 'POST=%d' % post, 'CUT=%d' % cut], simd=AVX2, unwind=pn + pre + post + 34,
                      bounds='payload of exactly %d bytes in the %d-bit length form' % (pn, form)))
    for l, off in [(10, 0), (14, 0), (20, 0), (24, 3)]:
        js.append(Job('len64-L%d-off%d' % (l, off), 'h_parse.c', FRAME, ['MODE=2', 'L_=%d' % l, 'OFF=%d' % off], simd=SCALAR, unwind=l + 3, bounds='every 64-bit length field on a %d-byte buffer' % l))
    return js


def fjob(name, mode, defs=(), **kw):
    kw.setdefault('simd', SCALAR)
    return Job(name, 'h_frame.c', FRAME, ['MODE=%d' % mode] + list(defs), **kw)


def faults(ops=(2, 8)):
    return [fjob('alloc-fault-op%d-at%d' % (op, k), 7, ['FAIL=%d' % k, 'OP=%d' % op, 'MN=%d' % (5 if op == 2 else 3)], unwind=16, bounds='allocation %d fails while framing and serialising a message with opcode %d' % (k, op))
            for op in ops for k in range(0, 15 if op == 2 else 7)]


@prop('P02', 'serialised bytes are decoded by the RFC 6455 reference decoder and by the real parser')
def p02():
    js = []
    for n in [0, 1, 2, 7, 8, 16, 64, 124, 125, 126, 127, 128, 255, 256, 300]:
        js.append(fjob('frame-n%d' % n, 0, ['PN=%d' % n, 'EX=0'], unwind=n + 14, bounds='one frame, payload of exactly %d bytes, every flag, opcode and content' % n))
    for n, e in [(5, 2), (9, 9), (130, 3)]:
        js.append(fjob('frame-n%d-ext%d' % (n, e), 0, ['PN=%d' % n, 'EX=%d' % e], unwind=n + 14, bounds='payload of %d bytes of which %d extension data' % (n, e)))
    for n in [65534, 65535, 65536, 65537]:
        js.append(fjob('bigframe-n%d' % n, 10, ['PN=%d' % n, 'VP_BIG=64'], unwind=70, bounds='payload of exactly %d bytes (header bytes)' % n))
    for i, (k, lens) in enumerate([(0, '{0}'), (1, '{3}'), (2, '{0,4}'), (3, '{1,5,0}'), (2, '{126,2}'), (4, '{2,0,130,1}')]):
        js.append(fjob('frames-%d' % i, 1, ['K=%d' % max(k, 1), 'LENS=%s' % lens], unwind=160, bounds='%d frames with payload lengths %s' % (k, lens)))
    for k, bad in [(1, 0), (3, 1), (3, 2)]:
        js.append(fjob('frames-bad%d-%d' % (k, bad), 1, ['K=%d' % k, 'LENS={1,2,3}', 'BAD=%d' % bad], unwind=40, bounds='%d frames, one of them invalid' % k))
    js += faults()
    return js


@prop('P03', 'fragments produced for a message are compared with the message')
def p03():
    js = []
    for ml, fs in [(0, 4), (1, 1), (4, 4), (5, 4), (8, 4), (9, 4), (12, 5), (3, 1), (7, 3), (16, 16), (17, 16), (40, 8), (41, 8), (100, 64), (5, 1000), (6, 6), (10, 1), (63, 7), (64, 7), (258, 1), (300, 300)]:
        js.append(fjob('msg%d-limit%d' % (ml, fs), 2, ['ML=%d' % ml, 'FS=%d' % fs], unwind=ml + 14, bounds='message of %d bytes, fragment limit %d, %s and every opcode except close' % (ml, fs, 'every content' if ml <= 64 else 'every content of the first two and last six bytes')))
    js += faults()
    return js


@prop('P04', 'each compiled variant of the unmasking loop (AVX2, SSE, scalar) against XOR with key byte i mod 4')
def p04():
    js = []
    for nm, simd in SIMD:
        w = {'avx2': 32, 'sse': 16, 'scalar': 4}[nm]
        for n in sorted({0, 1, 2, 3, 4, 5, 7, 15, 16, 17, 18, 19, 31, 32, 33, 34, 35, 63, 64, 65, 66, 96, 97, 125, 126, 127, 128, 129, 130, 160, 191, 193}):
            js.append(fjob('%s-n%d' % (nm, n), 9, ['PN=%d' % n], simd=simd, unwind=max(n + 12, 36), tiers=Q if nm == 'avx2' or n in (0, 1, 3, 16, 17, 33, 64, 66) else T,
                           bounds='%s unmasking of exactly %d bytes, every key and content' % (nm, n)))
    return js


@prop('P06', 'close, ping and pong frames as they leave the server')
def p06():
    js = [fjob('close-codes', 4, unwind=130, bounds='every close code 1000..1016'), fjob('ping', 6, unwind=130, bounds='the server ping, every random content'),
          ] + faults((8,))
    for w in (0, 1, 2):
        for k in (1, 2, 3): js.append(fjob('create-fault-%d-%d' % (w, k), 11, ['FAIL=%d' % k, 'WHAT=%d' % w], unwind=130, bounds='allocation %d fails while a ping or close frame is created' % k))
    for k in (1, 2): js.append(fjob('parse-alloc-fault%d' % k, 8, ['FAIL=%d' % k], unwind=16, bounds='failure of allocation %d while parsing 12 arbitrary bytes' % k))
    for n in [0, 1, 2, 3, 4, 10, 60, 122, 123, 124, 125, 126, 127, 130, 200]:
        if n >= 60: js.append(fjob('close-msg%d-tail' % n, 3, ['ML=%d' % n, 'SYM=%d' % min(n - 8, 112)], unwind=n + 14, bounds='close message of exactly %d bytes, not NUL-terminated, every status code and every content from byte %d on, ASCII before' % (n, min(n - 8, 112))))
        js.append(fjob('close-msg%d' % n, 3, ['ML=%d' % n, 'SYM=2'], unwind=n + 14, tiers=Q if n < 60 else T, bounds='close message of exactly %d bytes, not NUL-terminated, every content' % n))
    for n in [0, 1, 5, 64, 124, 125]:
        js.append(fjob('pong-n%d' % n, 5, ['PN=%d' % n], simd=AVX2, unwind=n + 36, bounds='ping payload of exactly %d bytes' % n))
    return js


@prop('P05', 'validator compared with the definition of well-formed UTF-8 (Unicode table 3-7)')
def p05():
    js = []
    def j(nm, simd, pre, n, post, tiers=Q):
        js.append(Job('%s-%d+%d+%d' % (nm, pre, n, post), 'h_utf8.c', ['src/utf8.c'], ['PRE=%d' % pre, 'N=%d' % n, 'POST=%d' % post], simd=simd, unwind=max(pre + n + post, 33) + 3, tiers=tiers,
                      bounds='%s validator: %d ASCII bytes, then every string of %d bytes, then %d ASCII bytes' % (nm, pre, n, post), timeout=300))
    for nm, simd in SIMD:
        w = {'avx2': 32, 'sse': 16, 'scalar': 8}[nm]
        for n in sorted({0, 1, 2, 3, 4, w - 1, w, w + 1, 2 * w, 2 * w + 2}): j(nm, simd, 0, n, 0, Q if nm == 'avx2' or n in (1, w, w + 1, 2 * w + 2) else T)
        j(nm, simd, w - 3, 5, 4); j(nm, simd, 2 * w - 2, 4, 3)
        for n in (5, 6, 7, 8, w + 3, 3 * w, 3 * w + 1, 4 * w): j(nm, simd, 0, n, 0, T)
    return js


WREAD = ['src/worker.c', 'src/utf8.c']


def rd(name, lens, ops=None, fins=None, masks=None, ch=None, eag=None, tiers=Q, **kw):
    n = len(lens)
    ops = ops or [-1] * n; fins = fins or [-1] * n; masks = masks or [1] * n
    hs = [2 + (2 if l > 125 else 0) + 4 * m + l for l, m in zip(lens, masks)]
    tot = sum(hs)
    if ch is None: ch = [tot]
    assert sum(ch) == tot, (name, ch, tot)
    eag = eag if eag is not None else [1] * len(ch)
    br = lambda l: '{%s}' % ','.join(map(str, l))
    d = ['NF=%d' % n, 'LEN=' + br(lens), 'OPC=' + br(ops), 'FIN=' + br(fins), 'MASKS=' + br(masks), 'TOT=%d' % tot, 'NC=%d' % len(ch), 'CH=' + br(ch), 'EAG=' + br(eag), 'CAPB=%d' % max(sum(lens), 2)]
    if -1 in ops + fins: d.append('ALLOPS=1')
    d += ['%s=%s' % kv for kv in kw.pop('extra', {}).items()]
    files = WREAD[:1] if any(x.startswith('U8=') for x in d) else WREAD
    if 'TLS=1' in d: files = files + ['src/ssl.c']
    return Job(name, 'h_read.c', files + [('src/frame.c', {'flags': ['-DWSS_closing_frame=real_closing_frame']})], d, repo_defs=['-Dread=vp_read', '-Dwrite=vp_write'], tiers=tiers,
               native_libs=['-Wl,--unresolved-symbols=ignore-all'], unwind=max(n + 3, max(lens) + 2), unwindset={k: tot + 4 for k in ('memcpy.0', 'memmove.0', 'vp_realloc.0', 'vp_realloc.1', 'vp_read.0', 'run.0', 'run.1', 'run.2', 'run.3', 'run.4', 'run.5', 'run.6', 'run.7', 'run.8', 'run.9', 'run.10', 'check.0', 'check.1', 'add.0', 'add.1', 'ref_upto.0', 'ref_upto.1', 'ref_upto.2', 'ref_upto.3', 'ref_upto.4', 'ref_utf8.0')} | {'memset.0': max(tot + 4, 1030 if 'TLS=1' in d else 0), 'vp_main.0': 3, 'vp_main.1': 17}, bounds='%d frame(s) of %s bytes in reads of %s bytes' % (n, lens, ch), **kw)


@prop('P11', 'one to three frames through the real receive loop')
def p11():
    js = []
    B, BF, C0, C1, T1, T0, PI, PO, CL = (2, 1), (2, 0), (0, 0), (0, 1), (1, 1), (1, 0), (9, 1), (10, 1), (8, 1)
    A = (-1, -1)
    def fr(name, fs, lens, **kw): js.append(rd(name, lens, [f[0] for f in fs], [f[1] for f in fs], **kw))
    for l in (0, 1, 2, 3, 5): fr('one-%d' % l, [A], [l], tiers=Q if l in (0, 2, 3) else T)
    fr('one-unmasked', [A], [3], masks=[0])
    for r in (1, 2, 4, 7): fr('one-rsv%d' % r, [A], [2], extra={'RSV': r}, tiers=Q if r in (1, 4) else T)
    for nm, f in (('bin', B), ('binfrag', BF), ('textfrag', T0), ('ping', PI), ('pong', PO), ('close', CL), ):
        fr('two-' + nm, [f, A], [2, 2], prio=1, tiers=Q if nm != 'pong' else T)
    fr('two-unmasked2', [BF, A], [1, 1], masks=[1, 0], tiers=T)
    fr('two-rsv2', [B, A], [1, 1], extra={'RSV': 1, 'RSVF': 1}, tiers=T)
    for nm, f, g in (('f-ping', BF, PI), ('f-cont', BF, C0), ('f-pong', BF, PO), ('b-f', B, BF), ('ping-f', PI, BF), ('ping-ping', PI, PI), ('b-b', B, B), ('f-end', BF, C1), ('f-end2', BF, C1)):
        fr('three-' + nm, [f, g, A], [2, 1, 2], tiers=Q if nm in ('f-ping', 'f-cont') else T)
    for nm, fs, ls in (('ping-ping', [BF, PI, PI, C1], [1, 2, 1, 1]), ('ping-cont-ping', [BF, PI, C0, PI, C1], [1, 2, 1, 1, 1]), ('text-after', [BF, PI, C1, T1], [1, 2, 1, 2]), ('close-in', [T0, PI, C0, CL, C1], [1, 1, 1, 2, 1]),
                       ('b-ping-close-b', [B, PI, CL, B], [1, 1, 0, 1]), ('bad-mid', [B, BF, B, B], [1, 1, 1, 1]), ('utf8-mid', [B, T1, B, B], [1, 2, 1, 1])):
        fr('seq-' + nm, fs, ls)
    for u in (0, 1):
        for ls in ([2, 1], [1, 2, 1], [1, 0, 1, 1]):
            fr('text-split-%d-' % u + '-'.join(map(str, ls)), [T0] + [C0] * (len(ls) - 2) + [C1], ls, extra={'U8': u})
        fr('two-text-%d' % u, [T1, A], [2, 2], extra={'U8': u}); fr('three-t-cont-%d' % u, [T0, C0, A], [2, 1, 2], extra={'U8': u}, tiers=Q if u else T)
        fr('seq-two-frag-%d' % u, [BF, C1, T0, C1, B], [2, 1, 1, 1, 1], extra={'U8': u}); fr('seq-ping-text-%d' % u, [T0, PI, C1, T1], [1, 2, 1, 2], extra={'U8': u})
    fr('utf8-4', [T1], [4]); fr('close-6', [CL], [6]); fr('close-125', [CL], [40], tiers=T)
    fr('ping-125', [PI, B], [125, 1]); fr('ping-126', [PI, B], [126, 1]); fr('close-126', [CL, B], [126, 1]); fr('bin-126', [B, B], [126, 1]); fr('bin-200', [B], [200], tiers=T)
    # limits
    fr('limit-frame', [A], [3], extra={'SIZE_FRAME': 2}); fr('limit-frame-ok', [A], [2], extra={'SIZE_FRAME': 2}, tiers=T)
    fr('limit-frame-2nd', [BF, A], [2, 3], extra={'SIZE_FRAME': 2}, tiers=T)
    fr('limit-fragments-ok', [BF, C0, C1, B], [1, 1, 1, 1], extra={'MAX_FRAMES': 3}); fr('limit-fragments', [BF, C0, C1, B], [1, 1, 1, 1], extra={'MAX_FRAMES': 2})
    fr('limit-fragments-many', [B, B, PI, B], [1, 1, 1, 1], extra={'MAX_FRAMES': 1}); fr('limit-fragments-close', [BF, CL], [1, 2], extra={'MAX_FRAMES': 1})
    # splits of the byte stream over reads and wake-ups (frame 1: 9 bytes, frame 2: 7 bytes)
    for k in range(1, 16): fr('split-%d' % k, [B, T1], [3, 1], ch=[k, 16 - k])
    for k in (1, 5, 9, 12): fr('chunks-%d' % k, [B, A], [3, 1], ch=[k, 16 - k], eag=[0, 1], tiers=Q if k == 12 else T)
    for ch in ([1, 1, 1, 13], [2, 4, 6, 4], [8, 1, 1, 6], [9, 1, 5, 1]):
        fr('split-' + '-'.join(map(str, ch)), [BF, C1], [3, 1], ch=ch)
    for ch in ([9, 7, 7], [9, 3, 11], [12, 11], [10, 6, 7]):
        fr('split3-' + '-'.join(map(str, ch)), [BF, PI, C1], [3, 1, 1], ch=ch)
    fr('split3-limit', [BF, C0, C1], [3, 1, 1], ch=[9, 7, 7], extra={'MAX_FRAMES': 2}); fr('split-16bit', [B], [130], ch=[3, 135]); fr('split-16bit-2', [B], [130], ch=[100, 38])
    fr('splitall', [T0, C1], [2, 2], ch=[1] * 16, tiers=T)
    # interrupted and failed reads
    fr('eintr-0', [B, B], [1, 1], ch=[7, 7], eag=[0, 1], extra={'EINTR_AT': 0}); fr('eintr-1', [B, B], [1, 1], ch=[7, 7], eag=[0, 1], extra={'EINTR_AT': 1}); fr('eintr-2', [B, B], [1, 1], ch=[5, 9], extra={'EINTR_AT': 1})
    fr('err-0', [B, B], [1, 1], ch=[7, 7], extra={'ERR_AT': 0}); fr('err-1', [BF, C1], [1, 1], ch=[9, 5], extra={'ERR_AT': 1}); fr('err-2', [BF, C1], [1, 1], ch=[7, 7], extra={'ERR_AT': 1})
    # extensions
    fr('ext-one', [A], [2], extra={'EXT': 1}); fr('ext-frag', [BF, C1, T1], [2, 1, 1], extra={'EXT': 1}); fr('ext-rsv', [B], [2], extra={'EXT': 1, 'RSV': 4})
    return js


def wr(name, lens, frm, q, hs=1, tiers=Q, extra=(), **kw):
    br = lambda l: '{%s}' % ','.join(map(str, l))
    tot = sum(lens)
    return Job(name, 'h_write.c', ['src/worker.c'] + (['src/ssl.c'] if 'TLS=1' in extra else []), ['NM=%d' % len(lens), 'LEN=' + br(lens), 'FRM=' + br(frm), 'QAT=' + br(q), 'NW=%d' % len(q), 'TOT=%d' % tot, 'HS=%d' % hs, 'MAXLEN=%d' % max(lens)] + list(extra),
               repo_defs=['-Dread=vp_read', '-Dwrite=vp_write'], tiers=tiers, native_libs=['-Wl,--unresolved-symbols=ignore-all'], unwind=max(tot, 4) + 4, unwindset={'WSS_write.0': 1, 'WSS_write.1': max(lens) + 3, 'WSS_write.2': len(lens) + 1, 'WSS_write.3': 3, 'vp_write.0': max(lens) + 1},
               bounds='messages of %s bytes with opcodes %s, queued before wake-ups as %s, any bytes accepted per write, at most %s' % (lens, frm, q, 'two failing calls'), **kw)


@prop('P27', 'the real send and receive loops over the real TLS functions; OpenSSL answers as the solver chooses')
def p27():
    t = ['TLS=1']
    js = [wr('send-one', [3], [2], [1, 1, 1], extra=t), wr('send-two', [2, 2], [1, 2], [2, 2, 2], extra=t), wr('send-later', [2, 2], [2, 2], [1, 2, 2], extra=t), wr('send-close', [3], [8], [1, 1, 1], extra=t), wr('send-close-then', [1, 2, 1], [2, 8, 2], [3, 3], extra=t),
          wr('send-http', [4], [0], [1, 1, 1], hs=0, extra=t), wr('send-wrap', [2, 1, 1], [1, 2, 2], [3, 3], extra=t + ['START=2']), wr('send-three', [1, 2, 1], [2, 1, 2], [3, 3], extra=t), wr('send-long', [6, 3], [2, 2], [2, 2, 2, 2], tiers=T, extra=t + ['MAXFAULT=3'])]
    for nm, ops, fins, lens, kw in [('bin', [2], [1], [3], {}), ('frag', [2, 0], [0, 1], [2, 1], {}), ('text', [1, 2], [1, 1], [1, 2], {}), ('ping', [2, 9, 0], [0, 1, 1], [1, 1, 1], {})]:
        tot = sum(l + 6 for l in lens)
        for ch, eag in [([tot], [1]), ([3, tot - 3], [1, 1]), ([3, tot - 3], [0, 1]), ([tot - 1, 1], [0, 1]), ([2, 4, tot - 6], [0, 1, 1])]:
            for ww in [-1] + list(range(len(ch))):
                for zr in ([0, 1] if ww < 0 and len(ch) < 3 else [0]):
                    js.append(rd('recv-%s-%s-%s-ww%d%s' % (nm, '-'.join(map(str, ch)), ''.join(map(str, eag)), ww, '-zr' if zr else ''), lens, ops, fins, ch=ch, eag=eag, extra=dict({'TLS': 1}, **({'WW_AT': ww} if ww >= 0 else {}), **({'ZR': 1} if zr else {})), tiers=Q if nm in ('bin', 'frag', 'ping') else T))
    for k in (0, 1): js.append(rd('recv-error-%d' % k, [2, 2], [2, 2], [1, 1], ch=[8, 8], eag=[0, 1], extra={'TLS': 1, 'ERR_AT': k}))
    return js


@prop('P12', 'the real send loop over a socket whose every answer is chosen by the solver')
def p12():
    js = [wr('one-1', [3], [2], [1, 1, 1]), wr('two', [2, 2], [1, 2], [2, 2, 2]), wr('three', [1, 2, 1], [2, 1, 2], [3, 3, 3]), wr('later', [2, 2], [2, 2], [1, 2, 2]),
          wr('wrap', [2, 1, 1], [1, 2, 2], [3, 3], extra=['START=2']), wr('close', [3], [8], [1, 1, 1]), wr('close-then', [2, 3, 1], [2, 8, 2], [3, 3, 3]), wr('http', [4], [0], [1, 1, 1], hs=0),
          wr('http-handshake', [3, 2], [0, 2], [1, 2, 2]), wr('http-first', [3, 2], [0, 8], [2, 2, 2]), wr('cont', [2, 2], [0x10, 2], [2, 2]), wr('ping-pong', [2, 2], [9, 10], [2, 2, 2]),
          wr('close-wrap', [1, 2, 1], [2, 8, 2], [3, 3], extra=['START=3']), wr('http-close-byte', [2, 2], [0, 0], [2, 2], hs=0), wr('empty', [0, 2], [0, 2], [2, 2]),
          wr('four', [2, 1, 2, 2], [1, 2, 2, 2], [4, 4, 4], tiers=T), wr('long', [6, 3], [2, 2], [2, 2, 2, 2], tiers=T, extra=['MAXFAULT=3'])]
    return js


# shared accesses of the ring buffer: a possible preemption before each; worker records are selected by comparison so that each stays a separate variable
YIELD = [(r'\b(\w+)->(next|end|written)\b', r'(*(vp_y(1), &(\1->\2)))'), (r'\b(\w+)->(first_free_worker)\b', r'(*(vp_y(2), &(\1->\2)))'), (r'(= |\()\*(p_free_worker)\b', r'\1(*(vp_y(2), \2))'),
         (r'\b(\w+)->(seen_off)\b', r'(*(vp_y(1), VP_W(\1, \2)))'), (r'\b(\w+)->(registered)\b', r'(*(vp_y(2), VP_W(\1, \2)))'),
         (r'\bworkers\[\];\s*\};', 'workers[VP_NTEMP];\n};\nstatic struct ringbuf vp_r;\n'), (r'\Z', '\nringbuf_t *vp_ring(size_t need) { return need <= sizeof vp_r ? &vp_r : malloc(need); }\n')]


def ring(name, space, nprod, ntemp, nops=0, start=0, outer=0, pre=(), inner=(), where=3, lenmax=1, tiers=Q, **kw):
    nest = len(inner)
    return Job(name, 'h_ring.c', [('src/ringbuf.c', {'sub': YIELD})], ['SPACE=%d' % space, 'NPROD=%d' % nprod, 'NTEMP=%d' % ntemp, 'VP_NTEMP=%d' % ntemp, 'NOPS=%d' % nops, 'START=%d' % start, 'NEST=%d' % nest, 'OUTER=%d' % outer,
               'PRE=' + (','.join(map(str, pre)) or '0'), 'INNER=' + (','.join(map(str, inner)) or '0'), 'LENMAX=%d' % lenmax, 'WHERE=%d' % where],
               pre=('shadow/ring_pre.h',), unwind=max(space, nprod + 1, start, nops, 4) + 2, unwindset={'memset.0': 300, 'memcpy.0': 300, 'ringbuf_acquire.0': nest + 1, 'register_worker.1': nest + 2, 'register_worker.0': ntemp + 1, 'ringbuf_consume.0': 2, 'stable_nextoff.0': 1}, tiers=tiers, fs=80, flags=('--no-pointer-check', '--no-bounds-check'),
               bounds='ring of %d slots (%d already used), %d producers on %d worker records, ' % (space, start, nprod, ntemp) + ('%d operations in any order' % nops if nops else 'after operations %s, operation %d interrupted at any of its shared accesses by operations %s of other threads (10+p request, 20+p finish, 30 consume)' % (list(pre), outer, list(inner))), **kw)


@prop('P13', 'the real ring buffer with every access to shared memory as a possible point of preemption (sequentially consistent memory)')
def p13():
    js = [ring('seq-2', 2, 2, 2, 6), ring('seq-3', 3, 2, 2, 6), ring('seq-3-wrap', 3, 2, 2, 6, start=2), ring('seq-4', 4, 3, 3, 5, start=3), ring('few-workers', 3, 2, 1, 5), ring('few-workers-3', 4, 3, 2, 5)]
    A0, A1, A2, P0, P1, P2, C = 10, 11, 12, 20, 21, 22, 30
    for sp, st in ((2, 0), (3, 1), (3, 2)):
        n = '%d-%d' % (sp, st)
        js += [ring('acq-acq-' + n, sp, 2, 2, start=st, outer=A0, inner=[A1]), ring('acq-con-' + n, sp, 2, 2, start=st, pre=[A1, P1], outer=A0, inner=[C]), ring('con-acq-' + n, sp, 2, 2, start=st, pre=[A0, P0], outer=C, inner=[A1, P1]),
               ring('pro-con-' + n, sp, 2, 2, start=st, pre=[A0, A1], outer=P0, inner=[P1, C]), ring('con-pro-' + n, sp, 2, 2, start=st, pre=[A0, A1], outer=C, inner=[P0, P1]),
               ring('pro-acq-' + n, sp, 2, 2, start=st, pre=[A0], outer=P0, inner=[A1, C])]
    js += [ring('acq-acq-few', 4, 2, 1, outer=A0, inner=[A1, P1]), ring('acq-pro-few', 4, 2, 1, pre=[A1], outer=A0, inner=[P1]), ring('con-reuse', 4, 3, 2, start=3, pre=[A0, A1], outer=C, inner=[P0, A2, P2]),
           ring('acq-con-acq', 3, 3, 3, start=2, pre=[A1, P1], outer=A0, inner=[C, A2], tiers=T, timeout=1500), ring('acq-acq-con', 4, 3, 3, start=3, pre=[], outer=A0, inner=[A1, P1, C], tiers=T), ring('con-acq-pro-acq', 4, 3, 3, start=3, pre=[A0, A1], outer=C, inner=[P0, A2, P1], tiers=T)]
    return js


@prop('P25', 'the real wrappers over a model allocator returning arbitrary content or nothing')
def p25():
    js = []
    for rp in (0, 1):
        for nd in ((), ('-DNDEBUG',)):
            src = [('src/alloc.c', {'noshadow': True, 'flags': (['-DUSE_RPMALLOC'] if rp else ['-UUSE_RPMALLOC', '-Dmalloc=m_malloc', '-Dcalloc=m_calloc', '-Drealloc=m_realloc', '-Dfree=m_free']) + list(nd)})]
            d = (['VP_RP=1'] if rp else []) + (['NDEBUG'] if nd else []) + (['free=m_free'] if nd and not rp else [])
            if not rp: d = d + ['VP_NORP']
            n = ('rp' if rp else 'libc') + ('-release' if nd else '-debug')
            js.append(Job('fresh-' + n, 'h_alloc.c', src, ['MODE=0', 'MAXN=9'] + d, unwind=32, bounds='every size 0..9 (element counts 0..3), arbitrary memory content, any call failing'))
            for lo, hi in ((0, 4), (5, 6), (7, 7)):
                js.append(Job('resize-%s-%d' % (n, lo), 'h_alloc.c', src, ['MODE=1', 'LO=%d' % lo, 'MAXN=%d' % (7 if lo == 7 else 6 if lo == 5 else 4)] + d, unwind=14, bounds='every old size %d..%d and new size 0..%d, arbitrary content, any call failing' % (lo, hi, hi)))
    return js


@prop('P10', 'the real coder against the bit-level definition of RFC 4648')
def p10():
    js = [Job('encode-%d' % n, 'h_b64.c', ['src/b64.c'], ['MODE=0', 'N=%d' % n, 'DEC=%d' % (n <= 6)] + (['VP_CAP=%d' % (n * 2 + 6)] if n <= 6 else []), unwind=70, bounds='every byte string of %d bytes%s' % (n, ', and its decoding' if n <= 6 else '')) for n in list(range(0, 10)) + [16, 20, 21, 24]]
    js += [Job('decode-%d' % n, 'h_b64.c', ['src/b64.c'], ['MODE=1', 'N=%d' % n, 'VP_CAP=%d' % (n + 2)], unwind=70, tiers=Q if n <= 8 else T, bounds='every string of %d arbitrary bytes' % n) for n in list(range(0, 9)) + [9, 12]]
    js += [Job('encode-fault-%d' % k, 'h_b64.c', ['src/b64.c'], ['MODE=0', 'N=5', 'DEC=0', 'FAIL=%d' % k], unwind=70, bounds='allocation %d fails while encoding 5 bytes' % k) for k in range(1, 8)]
    js += [Job('decode-fault-%d' % k, 'h_b64.c', ['src/b64.c'], ['MODE=1', 'N=7', 'VP_CAP=9', 'FAIL=%d' % k], unwind=70, bounds='allocation %d fails while decoding 7 characters' % k) for k in range(1, 5)]
    return js


@prop('P29', 'the real helpers with every file call failing or succeeding')
def p29():
    io = ['-D%s=vp_%s' % (x, x) for x in ('fopen', 'fseek', 'ftell', 'fread', 'fclose', 'rewind')]
    js = [Job('load-%d%s' % (n, '-oom' if f else ''), 'h_str.c', ['src/str.c'], ['MODE=0', 'N=%d' % n, 'FAIL=%d' % f], repo_defs=io, unwind=n + 4, bounds='every file of %d bytes, every combination of failing calls' % n) for n in (0, 1, 5, 16) for f in (0, 1)]
    js += [Job('hex-%d%s' % (n, '-oom' if f else ''), 'h_str.c', ['src/str.c'], ['MODE=1', 'N=%d' % n, 'FAIL=%d' % f], unwind=n + 4, bounds='every byte string of %d bytes' % n) for n in (0, 1, 7, 20) for f in (0, 1)]
    js += [Job('member-%d' % n, 'h_str.c', ['src/str.c'], ['MODE=2', 'N=%d' % n], unwind=n + 5, bounds='every word and three-element list of words of up to %d bytes' % n) for n in (1, 2, 4)]
    return js


PTH = ['-Dpthread_mutex_init=vp_mutex_init', '-Dpthread_mutex_destroy=vp_mutex_destroy', '-Dpthread_cond_init=vp_cond_init', '-Dpthread_cond_destroy=vp_cond_destroy', '-Dpthread_attr_init=vp_attr_init', '-Dpthread_attr_destroy=vp_attr_destroy',
       '-Dpthread_attr_setstacksize=vp_attr_setstacksize', '-Dpthread_mutex_unlock=vp_mutex_unlock', '-Dpthread_cond_signal=vp_cond_signal', '-Dpthread_cond_broadcast=vp_cond_broadcast',
       '-Dpthread_create=vp_create', '-Dpthread_exit=vp_exit', '-Dpthread_join=vp_join']


def pool(name, nw, qs, nops, stop, steps, spurious=0, resubmit=0, fail=0, cfail=0, again=0, tiers=Q, **kw):
    return Job(name, 'h_pool.c', ['src/pool.c'], ['NW=%d' % nw, 'QS=%d' % qs, 'NOPS=%d' % nops, 'STOP=%d' % stop, 'STEPS=%d' % steps, 'SPURIOUS=%d' % spurious, 'RESUBMIT=%d' % resubmit, 'FAIL=%d' % fail, 'CREATE_FAIL=%d' % cfail, 'AGAIN=%d' % again, 'JOINS=%d' % (nops + nw + 1)],
               repo_defs=PTH, pre=('shadow/alloc.h', 'shadow/pool_pre.h'), unwind=max(nops + nw, steps) + 3, unwindset={'threadpool_thread.0': 3, 'threadpool_thread.1': 3}, tiers=tiers, fs=64,
               bounds='%d workers, queue of %d, up to %d submissions and %d scheduling steps%s%s%s' % (nw, qs, nops, steps, ('', ', then an immediate shutdown', ', then a graceful shutdown')[stop], ', spurious wake-ups' if spurious else '', ', submissions by tasks and during the shutdown' if resubmit else ''), **kw)


@prop('P14', 'the real pool under a scheduler driven by the solver at lock, wait, task and join points')
def p14():
    js = [pool('w%d-q%d-%s' % (nw, qs, n), nw, qs, 3, s, 5) for nw, qs in ((1, 1), (1, 2), (2, 2)) for s, n in ((0, 'run'), (1, 'now'), (2, 'graceful'))]
    js += [pool('spurious', 2, 2, 2, 2, 5, spurious=1), pool('tasks-submit', 1, 2, 4, 2, 4, resubmit=1), pool('tasks-submit-now', 2, 2, 3, 1, 4, resubmit=1), pool('q3', 2, 3, 4, 2, 6), pool('w3', 3, 2, 4, 2, 7), pool('w3-run', 3, 2, 4, 0, 7), pool('again', 2, 2, 2, 2, 3, again=1), pool('again-now', 2, 2, 2, 1, 3, again=1), pool('long', 2, 2, 6, 2, 10, tiers=T)]
    js += [pool('create-oom-%d' % k, 2, 2, 0, 0, 1, fail=k) for k in (1, 2, 3)] + [pool('create-thread-%d' % k, 3, 2, 0, 0, 1, cfail=k) for k in (1, 2, 3)]
    return js


def msg(name, ml, fs, mode=0, ex=0, fail=0, unshaken=0, found=1, full=0, op=2, lockfail=0, tiers=Q, **kw):
    return Job(name, 'h_message.c', ['src/message.c', 'src/frame.c', 'src/session.c'], ['MODE=%d' % mode, 'ML=%d' % ml, 'FS=%d' % fs, 'EX=%d' % ex, 'FAIL=%d' % fail, 'UNSHAKEN=%d' % unshaken, 'FOUND=%d' % found, 'FULL=%d' % full, 'OP=%d' % op, 'LOCKFAIL=%d' % lockfail],
               repo_defs=LOCKS + ['-Dnanosleep=vp_nanosleep', '-Dclock_gettime=vp_clock_gettime'], pre=HASHED,
               native_libs=['-Wl,--unresolved-symbols=ignore-all'], unwind=max(ml + 14, 6), simd=SCALAR, tiers=tiers, witness=kw.pop('witness', not fail),
               bounds='message of %d bytes, fragments of at most %d, opcode %d, every content, connection state and change of it while waiting%s%s' % (ml, fs, op, ', one extension' if ex else '', ', allocation %d fails' % fail if fail else ''), **kw)


@prop('P15', 'the real sending functions and job counter, everything around them chosen by the solver')
def p15():
    js = [msg('send-%d-%d-op%d' % (m, f, o), m, f, op=o) for m, f, o in ((0, 4, 2), (3, 4, 1), (3, 4, 9), (7, 3, 1), (7, 3, 2), (20, 64, 10))] + [msg('send-ext', 5, 4, ex=1), msg('send-unshaken', 3, 4, unshaken=1), msg('send-unknown', 3, 4, found=0), msg('send-nolock', 3, 4, lockfail=1, witness=False), msg('send-full', 5, 4, full=1), msg('frames-full', 5, 4, mode=1, full=1)]
    js += [msg('send-oom-%d' % k, 5, 4, fail=k) for k in range(1, 9)]
    js += [msg('frames-1', 3, 4, mode=1), msg('frames-2', 7, 4, mode=1), msg('frames-ext', 7, 4, mode=1, ex=1)] + [msg('frames-oom-%d' % k, 3, 4, mode=1, fail=k) for k in (1, 2)]
    return js


def evt(name, mode, ne=1, retries=1, fail=0, tiers=Q, **kw):
    return Job(name, 'h_event.c', ['src/event.c'], ['MODE=%d' % mode, 'NE=%d' % ne, 'RETRIES=%d' % retries, 'FAIL=%d' % fail], repo_defs=['-D%s=vp_%s' % (x, x) for x in ('epoll_wait', 'epoll_ctl', 'epoll_create1', 'pipe', 'close', 'nanosleep', 'read')], witness=ne > 0 and not (fail == 1 and mode == 0),
               unwind=9, unwindset={'WSS_add_to_threadpool.0': retries + 2, 'WSS_poll_delegate.1': ne + 1, 'WSS_poll_delegate.0': 3}, tiers=tiers, native_libs=['-Wl,--unresolved-symbols=ignore-all'], **kw)


@prop('P26', 'the real epoll layer with every system call and every answer of the pool chosen by the solver')
def p26():
    js = [evt('round-%d-r%d%s' % (n, r, '-oom%d' % f if f else ''), 0, n, r, f, tiers=t, bounds='%d reported events, every mask and descriptor, pool retried %d times, every sequence of pool answers, at most one interruption%s' % (n, r, ', allocation %d fails' % f if f else ''))
          for n, r, f, t in ((0, 0, 0, Q), (1, 0, 0, Q), (1, 2, 0, Q), (2, 1, 0, Q), (2, 0, 1, Q), (2, 0, 2, Q), (3, 1, 0, T))]
    js += [evt('arm', 1, bounds='arming and removing a registered or unregistered descriptor, every failure, up to two interruptions, any earlier errno'), evt('setup', 2, bounds='set-up and tear-down, every combination of failures'), evt('setup-oom', 2, fail=1, bounds='set-up without memory')]
    return js




def ses(name, mode, ops=(), fail=0, lockfail=0, initfail=0, tiers=Q, **kw):
    d = ['MODE=%d' % mode, 'FAIL=%d' % fail, 'LOCKFAIL=%d' % lockfail, 'INITFAIL=%d' % initfail, 'OPLIST=' + (','.join(map(str, ops)) or '0')] + ['%s=%d' % kv for kv in kw.pop('extra', {}).items()]
    return Job(name, 'h_session.c', ['src/session.c', 'src/frame.c'] + (['src/header.c'] if mode == 1 else []), d, repo_defs=LOCKS + ['-Dclose=vp_close'], pre=HASHED, unwind=11, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'], **kw)


@prop('P16', 'the real table functions under histories chosen by the solver')
def p16():
    S = -1; A, D = 0, 1
    js = [ses('any-%d' % n, 0, [S] * n, tiers=Q if n < 4 else T, bounds='every history of %d operations (add, remove, visit all, remove all) on any of three descriptors' % n) for n in (1, 2, 3, 4)]
    js += [ses('add-add-any-any', 0, [A, A, S, S], bounds='two additions, then every two operations'), ses('add-del-any-any', 0, [A, D, S, S], bounds='addition and removal, then every two operations'), ses('add-add-add-any', 0, [A, A, A, S], bounds='three additions, then every operation'),
           ses('add-add-any-any-any', 0, [A, A, S, S, S], tiers=T, bounds='two additions, then every three operations')]
    js += [ses('oom-%d' % k, 0, [A, S, A], fail=k, witness=False, bounds='allocation %d fails' % k) for k in (1, 2, 3, 4)] + [ses('init-%d' % k, 0, [A, A, S], initfail=k, witness=False, bounds='creation call %d of a lock fails' % k) for k in range(1, 9)]
    js += [ses('lock-%d' % k, 0, [A, S, S], lockfail=k, witness=False, bounds='taking the lock of the table fails the %d. time' % k) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9)]
    return js


@prop('P17', 'the real teardown of connections holding any of the things a connection may hold')
def p17():
    js = []
    for hdr in (0, 1, 2, 3):
        for hold in ((0, 7) if hdr in (1, 2) else (0, 1, 2, 4, 10, 15)):
            for tls in (0, 1):
                if tls and hold not in (0, 15): continue
                js.append(ses('hold-%d-%d-%d' % (hdr, hold, tls), 1, extra={'HDR': hdr, 'HOLD': hold, 'TLS': tls, 'WHOLE': 0}, bounds='one connection of two'))
    js += [ses('any', 1, extra={'HDR': -1, 'HOLD': -1, 'TLS': -1, 'WHOLE': 0}, bounds='one connection of two, every combination of what it holds'), ses('any-all', 1, extra={'HDR': -1, 'HOLD': -1, 'TLS': -1, 'WHOLE': 1}, bounds='all connections, every combination')]
    js.append(ses('all', 1, extra={'HDR': 3, 'HOLD': 7, 'TLS': 1, 'WHOLE': 1}, bounds='all connections'))
    js += [ses('jobs', 2, bounds='every counter 0..3, spurious wake-ups'), ses('jobs-lockfail', 2, lockfail=1, bounds='failing lock')]
    return js


def wrk(name, mode=0, st=0, ev=1, hsk=1, tls=0, tiers=Q, **kw):
    extra = kw.pop('extra', {})
    kw.setdefault('bounds', 'state %s, event %s%s' % (['idle', 'reading', 'writing', 'closing', 'connecting'][st], ['idle', 'reading', 'writing', 'closing'][ev], ', TLS' if tls else ''))
    d = ['MODE=%d' % mode, 'ST=%d' % st, 'EV=%d' % ev, 'HSK=%d' % hsk, 'TLS=%d' % tls] + ['%s=%s' % kv for kv in extra.items()]
    return Job(name, 'h_work.c', ['src/worker.c', 'src/session.c', 'src/ssl.c', 'src/frame.c', 'src/message.c', 'src/header.c'], d, repo_defs=LOCKS + ['-D%s=vp_%s' % (x, x) for x in ('read', 'write', 'close', 'clock_gettime', 'nanosleep', 'accept')] + ['-Dinet_ntoa=vp_ntoa'],
               pre=HASHED, unwind=8, unwindset={'memcpy.0': 40, 'memset.0': 140, 'WSS_write.0': 1, 'WSS_write.1': 3, 'WSS_write.2': 4, 'WSS_write.3': 3}, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'], **kw)


@prop('P18', 'the real dispatcher with connection table and TLS layer, one work item at a time, a second thread disconnecting at any lock operation')
def p18():
    I, R, W, C, N = range(5)
    js = []
    for st, ev, q in ((I, W, 1), (I, C, 0), (W, W, 1), (W, W, 2), (W, R, 1), (C, R, 0), (R, C, 0), (W, C, 1), (C, W, 0)):
        js.append(wrk('work-%d-%d-q%d' % (st, ev, q), 0, st, ev, extra={'QN': q}))
    for st, ev in ((I, R), (R, R), (R, W)):
        for rd, n in ((1, 'close'), (2, 'message'), (3, 'partial'), (4, 'error'), (5, 'nothing')):
            js.append(wrk('read-%d-%d-%s' % (st, ev, n), 0, st, ev, extra={'RD': rd}, witness=n not in ('error',)))
    for st, ev, q in ((W, W, 1), (R, R, 0)):
        for i, (n0, n1) in enumerate(((0, 0), (0, 999999999), (999999999, 0), (2400000, 1500000))):
            js.append(wrk('timeout-%d-%d-%d' % (st, ev, i), 0, st, ev, extra={'QN': q, 'TIMES': 1, 'RD': 5, 'NS0': n0, 'NS1': n1}, bounds='every timeout -1..5000 ms, last activity up to 6 s ago, state %d' % st))
    for st, ev, q, rd in ((I, R, 0, 5), (I, W, 1, 5), (I, C, 0, 5), (W, W, 1, 5)): js.append(wrk('other-%d-%d' % (st, ev), 0, st, ev, extra={'QN': q, 'RD': rd, 'OTHER': 1}))
    for st, ev, h, q, rd in ((N, R, 0, 0, 0), (N, W, 0, 0, 0), (I, W, 1, 1, 0), (W, R, 1, 1, 0), (W, W, 1, 1, 0), (I, C, 1, 0, 0), (N, C, 0, 0, 0), (I, R, 1, 0, 4), (I, R, 1, 0, 5), (I, R, 1, 0, 6), (R, W, 1, 0, 5), (R, W, 1, 0, 6)):
        js.append(wrk('tls-%d-%d-%d-rd%d' % (st, ev, h, rd), 0, st, ev, h, 1, extra={'QN': q, 'RD': rd}, witness=rd != 4))
    for n in (1, 2):
        js.append(wrk('accept-%d' % n, 1, extra={'NCONN': n}, bounds='up to %d new connections, every interruption and failure of accept' % n)); js.append(wrk('accept-tls-%d' % n, 1, tls=1, extra={'NCONN': n}, bounds='up to %d new TLS connections' % n))
    js += [wrk('accept-oom-%d' % k, 1, extra={'NCONN': 2, 'FAIL': k}, bounds='up to 2 new connections, allocation %d fails' % k) for k in range(1, 6)]
    return js


def cln(name, rows, pings=2, tmo=5000, n0=0, n1=0, ex=0, fail=0, lockfail=0, intr=0, tiers=Q, **kw):
    """rows: handshaked, TLS, state, jobs, busy, full, claimed, closing, pong, age"""
    if len(rows[0]) == 1: rows = [rows]
    sym = any(r[9] == '3' for r in rows)
    kw.setdefault('bounds', '%d connection(s): %s; %s pings, %s%s' % (len(rows), ' '.join(rows), pings, 'every timeout -1..5000 ms, last activity up to 6 s ago or in the future' if sym else 'timeout %d ms' % tmo, ', allocation %d fails' % fail if fail else ''))
    return Job(name, 'h_clean.c', ['src/server.c', 'src/session.c', 'src/frame.c', 'src/message.c', 'src/header.c'], ['NS=%d' % len(rows), 'ROWS=' + ','.join('{' + ','.join(r) + '}' for r in rows), 'TMO=%d' % (-2 if sym else tmo), 'PINGS=%d' % pings, 'NS0=%d' % n0, 'NS1=%d' % n1, 'EX=%d' % ex, 'FAIL=%d' % fail, 'LOCKFAIL=%d' % lockfail, 'INTR=%d' % intr],
               repo_defs=LOCKS + ['-Dpthread_mutex_trylock=vp_mutex_trylock', '-Dpthread_exit=vp_exit'] + ['-D%s=vp_%s' % (x, x) for x in ('write', 'close', 'clock_gettime', 'nanosleep', 'poll')], pre=HASHED, unwind=9, unwindset={'random_bytes.0': 127, 'memcpy.0': 130, 'memset.0': 140, 'control.0': 126, 'strlen.0': 40, 'WSS_message_send_frames.2': 2},
               tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'], **kw)


@prop('P24', 'the real clean-up thread over connections in concrete states with symbolic clocks, timeouts, contents and outcomes of system calls, with the real connection table and sending functions')
def p24():
    js = []
    for i, (n0, n1) in enumerate(((0, 0), (0, 999999999), (999999999, 0), (2400000, 1500000))):
        for t in '01': js.append(cln('age-%d-tls%s' % (i, t), '1' + t + '00000003', 0, n0=n0, n1=n1, intr=i & 1))
    js += [cln('pings-%d-%d' % (p, t), '1000000000', p, t) for p, t in ((1, 5000), (3, 5000), (2, 2001))]
    for tls in '01':
        for st in '0123':
            for age in '012': js.append(cln('state%s-tls%s-age%s' % (st, tls, age), '1' + tls + st + '000000' + age))
        js += [cln('jobs-tls%s' % tls, '1' + tls + '12000001'), cln('busy-tls%s' % tls, '1' + tls + '02100001'), cln('busy-young-tls%s' % tls, '1' + tls + '01100000'), cln('claimed-tls%s' % tls, '1' + tls + '00001001'), cln('full-tls%s' % tls, '1' + tls + '00010010'),
               cln('closing-tls%s' % tls, '1' + tls + '00000100'), cln('pong-old-tls%s' % tls, '1' + tls + '00000011'), cln('pong-tls%s' % tls, '1' + tls + '00000010'), cln('early-tls%s' % tls, '0' + tls + '00000001'), cln('part-tls%s' % tls, '2' + tls + '00000000'), cln('part-old-tls%s' % tls, '2' + tls + '00000001'), cln('connecting-tls%s' % tls, '0' + tls + '40000001'), cln('ext-tls%s' % tls, '1' + tls + '00000000', ex=1), cln('ext-old-tls%s' % tls, '1' + tls + '00000001', ex=1),
               cln('off-tls%s' % tls, '1' + tls + '00000001', tmo=-1), cln('nopings-tls%s' % tls, '1' + tls + '00000000', 0), cln('nopings-old-tls%s' % tls, '1' + tls + '00000001', 0)]
    js += [cln('two-%d' % i, rows, 0 if i in (2, 3) else 2) for i, rows in enumerate((['1000000000', '1100000001'], ['1000000001', '1000000000'], ['1000000001', '1100000001'], ['1020000001', '0000000001'], ['1002100001', '1000000000']))]
    js += [cln('three', ['1000000001', '1000000000', '1100000001'], 0), cln('lockfail', '1000000001', lockfail=1, witness=False)] + [cln('oom-%d-%s' % (k, a), '100000000' + a, fail=k, witness=False) for k in range(1, 7) for a in '01']
    return js


def sub(name, which, ops, fail=0, lockfail=0, nest=0, mlen=2, tiers=Q, **kw):
    return Job(name, 'h_sub.c', ['subprotocols/%s/%s.c' % ((('echo',) * 2, ('broadcast',) * 2)[which])],
               ['WHICH=%d' % which, 'FAIL=%d' % fail, 'LOCKFAIL=%d' % lockfail, 'NEST=%d' % nest, 'MLEN=%d' % mlen, 'OPLIST=' + ','.join(map(str, ops))], repo_defs=LOCKS, pre=HASHED, unwind=9, tiers=tiers, simd=SCALAR, **kw)


@prop('P22', 'the real plug-ins under histories chosen by the solver')
def p22():
    S = -1; C, D, M = 0, 1, 2
    js = [sub('echo-any-%d' % n, 0, [S] * n, bounds='every history of %d callbacks over four connections' % n) for n in (1, 3)]
    js += [sub('broadcast-any-%d' % n, 1, [S] * n, tiers=Q if n < 5 else T, witness=n > 2, bounds='every history of %d callbacks over four connections' % n) for n in (2, 3, 4, 5)]
    js += [sub('broadcast-len-%d' % n, 1, [C, C, C, M], mlen=n, bounds='three connections (repeated or not), then a message of %d bytes' % n) for n in (0, 1, 8)]
    js += [sub('broadcast-%s' % ''.join('CDMS'[o] for o in ops), 1, list(ops), bounds='histories of the form ' + ' '.join(('connect', 'close', 'message', 'any')[o] for o in ops), tiers=t)
           for ops, t in (((C, C, C, D, M), Q), ((C, D, C, M, D, M), Q), ((C, C, D, C, M), Q), ((C, C, C, D, S, M), T), ((C, S, S, S, M), T))]
    js += [sub('broadcast-other-%s' % ''.join('CDMS'[o] for o in ops), 1, list(ops), nest=k, witness=False, bounds='another connection comes or goes up to %d times while the callback runs' % k) for ops, k in (((C, C, M), 1), ((C, M), 2), ((C, C, D, M), 1), ((C, D, M), 2))]
    js += [sub('broadcast-oom-%d' % k, 1, [C, S, C, M], fail=k, witness=False, bounds='allocation %d fails' % k) for k in (1, 2, 3)]
    js += [sub('broadcast-lock-%d' % k, 1, [C, C, S, M], lockfail=k, witness=False, bounds='taking the lock fails the %d. time' % k) for k in range(1, 9)]
    return js


def plug(name, kind, tpls, qn, fail=0, tiers=Q, **kw):
    return Job(name, 'h_plugin.c', ['src/subprotocols.c', 'src/extensions.c'][kind:kind + 1], ['KIND=%d' % kind, 'FAIL=%d' % fail, 'QN=%d' % qn, 'TPLS=' + ','.join('"%s"' % t for t in tpls)],
               repo_defs=['-Ddlopen=vp_dlopen', '-Ddlclose=vp_dlclose', '-Ddlsym=vp_dlsym', '-Ddlerror=vp_dlerror', '-Dbasename=vp_basename', '-D__xpg_basename=vp_xpg'], pre=HASHED, unwind=24, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'], **kw)


@prop('P30', 'the real registries with a stubbed dynamic loader')
def p30():
    js = []
    for k in (0, 1):
        n = ('sub', 'ext')[k]
        for i, (t, q) in enumerate(((['??.so'], 2), (['a/?.so', 'b/??.so'], 2), (['./s/???.so', '??.tar.so'], 3), (['p/???', '????.so'], 4), (['?.so', '?.so'], 1), (['a.b/?-??.so', 'x/???.so'], 4), (['?/.so'], 0))):
            js.append(plug('%s-%d' % (n, i), k, t, q, witness=i != 6, bounds='files %s (? = any byte of a name), each library present, absent or missing any one function; every queried name of %d bytes' % (' '.join(t), q)))
        js += [plug('%s-oom-%d' % (n, f), k, ['a/??.so', 'b/???.so'], 2, fail=f, witness=False, bounds='allocation %d fails' % f) for f in range(1, 7)]
    return js


def hdr(name, req, fail=0, tiers=Q, extra=(), weird=False, bounds_=None, **kw):
    n = len(req.encode().decode('unicode_escape'))
    return Job(name, 'h_header.c', ['src/header.c', 'src/str.c', 'src/b64.c'], ['REQ="%s"' % req, 'FAIL=%d' % fail, 'VP_WILD=1'] + (['WEIRD=1'] if weird else []) + list(extra), unwind=n + 6, tiers=tiers, simd=SCALAR,
               pre=('shadow/alloc.h', 'shadow/str_pre.h'), native_libs=['-Wl,--unresolved-symbols=ignore-all'], bounds=bounds_ or 'request "%s"%s: every ? any ordinary character%s' % (req, (' with ' + ' '.join(extra)) if extra else '', ', allocation %d fails' % fail if fail else ''), **kw)


def http(name, req, want, ch=None, fail=0, tiers=Q, extra=(), **kw):
    kw.setdefault('witness', fail == 0 and name in ('ok', 'ok-chat', 'no-host', 'icon-3', 'pieces-ok', 'error-1'))
    n = len(req.encode().decode('unicode_escape')); ch = ch or [n]
    assert sum(abs(c) for c in ch) == n or 'part' in name, (name, n, ch)
    return Job(name, 'h_http.c', ['src/worker.c', 'src/header.c', ('src/str.c', {'flags': ['-Dstrload=real_strload']}), 'src/b64.c'], ['REQ="%s"' % req, 'WANT=%d' % want, 'CH={%s}' % ','.join(map(str, ch)), 'FAIL=%d' % fail, 'VP_WILD=1', 'VP_MO=6', 'VP_MK=260'] + list(extra), pre=('shadow/alloc.h', 'shadow/str_pre.h'),
               repo_defs=['-Dread=vp_read', '-Dwrite=vp_write', '-Daccess=vp_access', '-Dstrload=vp_strload'], unwind=1000, fs=300, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'],
               bounds='request "%s" in %d piece(s)%s%s' % (req, len(ch), (', ' + ' '.join(extra)) if extra else '', ', allocation %d fails' % fail if fail else ''), **kw)


def upg(name, typ='RFC6455', fail=0, tiers=Q, **kw):
    d = ['%s=%s' % (k, '"%s"' % v if isinstance(v, str) else v) for k, v in kw.items()]
    return Job(name, 'h_upgrade.c', ['src/header.c', 'src/str.c'], ['TYPE=%s' % typ, 'VP_WILD=1', 'VP_MO=6', 'VP_MK=40'] + d, unwind=60, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all'],
               bounds='request of version %s%s; every outcome of pattern matching and key decoding' % (typ, (' with ' + ' '.join(d)) if d else ''))


@prop('P08', 'the real upgrade decision on an arbitrary parsed request')
def p08():
    js = [upg('all-' + t.lower(), t) for t in ('RFC6455', 'HYBI10', 'HYBI07', 'HYBI06', 'HYBI05', 'HYBI04', 'HIXIE76', 'HIXIE75', 'UNKNOWN')]
    js += [upg('open', HOSTS=0, ORIGINS=0, RE=0), upg('open-bare', HOSTS=0, ORIGINS=0, RE=0, HOST='-', ORIGIN='-'), upg('hosts', HOSTS=1, ORIGINS=0, RE=0), upg('origins', HOSTS=0, ORIGINS=1, RE=0, ORIGIN='?ttp://?'), upg('pattern', HOSTS=0, ORIGINS=0)]
    for f in ('HOST', 'ORIGIN', 'UPGRADE', 'CONNECTION', 'KEY'): js.append(upg('no-' + f.lower(), **{f: '-'}))
    for i, h in enumerate(['', 'goo', '?????', '?o.st:8?', 'ho.st:80?', 'good?']): js += [upg('host-%d' % i, HOST=h), upg('origin-%d' % i, ORIGIN=h.replace('ho.st:8', 'http://'))]
    for i, u in enumerate(['', '????????', '?????????, b', '??????????', 'h2c?, websocket', 'web ?ocket']): js.append(upg('upgrade-%d' % i, UPGRADE=u))
    for i, c in enumerate(['U?????e', 'u?????E', 'x?x, y?y', 'upgrad', 'Upgrade', 'upg?ade, ke', 'x,Upgrade?z', 'a?b,,UP???DE , c', ', ,', '', 'k?ep-al?ve,x']): js.append(upg('connection-%d' % i, CONNECTION=c))
    for i, q in enumerate(['????://x', '?????://x', 'ws://?', 'wss://?', 'h???s://', '/', 'HTTP://?', 'http:/?x']): js.append(upg('path-%d' % i, PATH=q))
    for i, k in enumerate(['', '????????????????????????']): js.append(upg('key-%d' % i, KEY=k))
    return js


@prop('P09', 'the real handshake: reading the request, parsing, deciding and answering')
def p09():
    js = []
    G = 'GET /a?b HTTP/1.1'; L = G + '\\r\\n'; E = '\\r\\n\\r\\n'; U = 'Host: h\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\n'; K = 'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n'; V = 'Sec-WebSocket-Version: 13'
    P = 'Sec-WebSocket-Protocol: '; X = 'Sec-WebSocket-Extensions: '
    OK = L + U + K + V + E; n = len(OK.encode().decode('unicode_escape'))
    # upgrades
    js.append(http('ok', OK, 101))
    for v in (7, 8): js.append(http('ok-v%d' % v, OK.replace('13', str(v)), 101))
    js.append(http('ok-case', L + 'HOST:h\\r\\nupgrade:WEBSOCKET\\r\\nconnection:a?b, UPGRADE\\r\\n' + K + V + E, 101))
    js.append(http('ok-chat', L + U + K + P + 'x?x, chat, echo\\r\\n' + V + E, 101, extra=['XPROTO="chat"'], prio=2))
    js.append(http('ok-noproto', L + U + K + P + 'x?x\\r\\n' + V + E, 101))
    js.append(http('ok-ext', L + U + K + X + 'x-aa; p=?1\\r\\n' + V + E, 101, extra=['XEXT="x-aa"'], prio=2))
    js.append(http('ok-ext-acc', L + U + K + X + 'x-aa; p, x-bb\\r\\n' + V + E, 101, extra=['XEXT="x-aa;p=1,x-bb"', 'ACC=1'], prio=2))
    js.append(http('ok-ext-part', L + U + K + X + 'x-aa, x-bb\\r\\n' + P + 'echo\\r\\n' + V + E, 101, extra=['XEXT="x-bb;p=1"', 'XPROTO="echo"', 'OKS=2', 'ACC=3'], prio=2))
    js.append(http('ok-ext-none', L + U + K + X + 'x-aa\\r\\n' + V + E, 101, extra=['OKS=0']))
    js.append(http('ok-cookie', L + U + K + 'Cookie: a=??;b\\r\\n' + V + E, 101))
    js.append(http('ok-pattern', OK, 101, extra=['RE=0']))
    js.append(http('ok-allowed', OK.replace('Host: h', 'Host: good\\r\\nOrigin: good'), 101, extra=['HOSTS=1', 'ORIGINS=1']))
    # refusals
    for nm, q, c, e in [('no-version', 'GET /a?' + E, 400, []), ('no-path', 'GET' + E, 400, []), ('line-end', 'GET /a HTTP/1.1\\r\\nA: b\\rC' + E, 400, []), ('method', 'F?? /a HTTP/1.1' + E, 405, []), ('version', 'GET /a ??? A: b' + E, 505, []), ('version-2', 'GET /a HTTP/2.?' + E, 505, []),
                        ('no-upgrade', G + E, 426, []), ('http-path', 'GET http://h/? HTTP/1.1' + E, 426, []), ('upgrade', L + U.replace('websocket', 'webs?x') + K + V + E, 426, []), ('connection', L + U.replace(': Upgrade', ': k?ep-al?ve') + K + V + E, 426, []),
                        ('no-key', L + U + V + E, 426, []), ('key', L + U + 'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25j\\r\\n' + V + E, 426, []), ('key-17', L + U + 'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZWY=\\r\\n' + V + E, 426, []), ('key-short', L + U + 'Sec-WebSocket-Key: dGhlIA==\\r\\n' + V + E, 426, []), ('ws-version', OK.replace('13', '14'), 501, []), ('no-ws-version', L + U + K + 'A: b' + E, 501, []),
                        ('not-found', OK, 404, ['RE=1']), ('pattern-error', OK, 500, ['RE=2']), ('host', OK, 400, ['HOSTS=1']), ('origin', OK, 403, ['ORIGINS=1']), ('origin-2', OK.replace('Host: h', 'Host: h\\r\\nOrigin: goo?x'), 403, ['ORIGINS=1']),
                        ('no-echo', OK, 500, ['PROTOS=0']), ('ext-refused', L + U + X + 'x-aa, x-bb\\r\\n' + K + V + E, 500, ['PROTOS=0', 'ACC=1']), ('ext-426', L + X + 'x-aa' + E, 426, ['ACC=1']), ('ext-501', L + U + X + 'x-aa, x-bb' + E, 501, ['ACC=2']), ('two-keys', L + X + 'x-aa\\r\\n' + K + K.replace('\\r\\n', '') + E, 400, []),
                        ('large', OK, 413, ['MAXALL=100']), ('uri', 'GET /a?c HTTP/1.1' + E, 414, ['MAXURI=3']), ('fields', G + '\\r\\nAb: ?dd' + E, 431, ['MAXHDR=5'])]:
        js.append(http('no-' + nm, q, c, extra=e, prio=1 if 'ext' in nm else 0))
    # the icon
    IC = 'GET /favicon.ico HTTP/1.1' + E
    for i in (1, 3): js.append(http('icon-%d' % i, IC, 200, extra=['ICON=%d' % i]))
    for i in (0, -1, -2, -3): js.append(http('no-icon%d' % i, IC, 404, extra=['ICON=%d' % i]))
    # pieces
    B = 'F?? /a HTTP/1.1' + E; m = len(B.encode().decode('unicode_escape'))
    for nm, ch in [('1', [1, m - 1]), ('cr', [m - 3, 3]), ('crlf', [m - 2, 2]), ('three', [3, 7, m - 10]), ('byte', [m - 4, 1, 1, 1, 1]), ('more', [-5, -6, m - 11]), ('mixed', [-5, 6, -(m - 12), 1])]:
        js.append(http('pieces-' + nm, B.replace('?', 'O') if len(ch) > 3 else B, 405, ch=ch))
    B2 = G + E; m2 = len(B2.encode().decode('unicode_escape')); js.append(http('pieces-crlfcr', B2, 426, ch=[m2 - 1, 1])); js.append(http('pieces-crlf2', B2, 426, ch=[m2 - 2, 1, 1])); js.append(http('pieces-cr2', B2, 426, ch=[m2 - 3, 3]))
    js.append(http('pieces-ok', OK, 101, ch=[5, n - 8, 3], prio=2))
    for i in (0, 1): js.append(http('eintr-%d' % i, B, 405, ch=[4, m - 4], extra=['EINTR_AT=%d' % i]))
    for i in (0, 1): js.append(http('error-%d' % i, B, 500, ch=[4, m - 4], extra=['ERR_AT=%d' % i]))
    js.append(http('part', 'GET /a?', 0, ch=[4, 3]))
    js.append(http('after', B, 405, ch=[m - 2, 2], extra=['RFULL=1'])); js.append(http('ok-full', OK, 101, extra=['RFULL=1']))
    # out of memory
    for f in range(1, 13): js.append(http('oom-ok-%d' % f, L + U + X + 'x-aa\\r\\n' + K + V + E, 101, fail=f, extra=['XEXT="x-aa;p=1"', 'ACC=1'], prio=1))
    for f in range(1, 6): js.append(http('oom-no-%d' % f, B, 405, ch=[3, m - 3], fail=f))
    for f in range(1, 6): js.append(http('oom-426-%d' % f, G + E, 426, fail=f))
    for f in range(1, 8): js.append(http('oom-icon-%d' % f, IC, 200, fail=f, extra=['ICON=2']))
    # the accept value and the hash of the icon
    for n in (0, 1, 60):
        for f in ([0, 1] if n == 60 else [0]):
            js.append(Job('accept-%d%s' % (n, '-oom' if f else ''), 'h_accept.c', ['src/ssl.c'], ['MODE=0', 'LEN=%d' % n, 'FAIL=%d' % f], unwind=105, native_libs=['-Wl,--unresolved-symbols=ignore-all'], bounds='every text of %d bytes, every digest' % n))
            js.append(Job('plain-accept-%d%s' % (n, '-oom' if f else ''), 'h_accept.c', ['src/ssl.c', 'src/b64.c'], ['MODE=0', 'LEN=%d' % n, 'FAIL=%d' % f, 'PLAIN=1'], repo_defs=['-UUSE_OPENSSL'], unwind=105, native_libs=['-Wl,--unresolved-symbols=ignore-all'], bounds='every text of %d bytes, every digest (build without OpenSSL)' % n))
    js.append(Job('hash', 'h_accept.c', ['src/ssl.c'], ['MODE=1', 'LEN=5'], unwind=105, native_libs=['-Wl,--unresolved-symbols=ignore-all'], bounds='every text of 5 bytes'))
    js.append(Job('plain-hash', 'h_accept.c', ['src/ssl.c'], ['MODE=1', 'LEN=5', 'PLAIN=1'], repo_defs=['-UUSE_OPENSSL'], unwind=105, native_libs=['-Wl,--unresolved-symbols=ignore-all'], bounds='every text of 5 bytes (build without OpenSSL)'))
    return js


@prop('P07', 'the real request parser')
def p07():
    js = []
    R = 'GET /a HTTP/1.1\\r\\n'; E = '\\r\\n\\r\\n'; V = 'Sec-WebSocket-Version: '; P = 'Sec-WebSocket-Protocol: '; X = 'Sec-WebSocket-Extensions: '; K = 'Sec-WebSocket-Key: '
    # request line
    for n, q in [('method', '??? /a HTTP/1.1'), ('method-4', 'GET? /a HTTP/1.1'), ('path', 'GET /??b HTTP/1.1'), ('path-start', 'GET ??x HTTP/1.1'), ('path-ws', 'GET w?://h? HTTP/1.1'), ('path-https', 'GET htt??://h HTTP/1.1'), ('version', 'GET /a HTTP/?.?'),
                 ('version-long', 'GET /a HTTP/1.1?'), ('spaces', 'GET  /a?   HTTP/1.1'), ('no-version', 'GET /a?'), ('no-path', 'GET'), ('empty', '')]:
        js.append(hdr('line-' + n, q + E, weird=n == 'empty'))
    js.append(hdr('line-uri-max', 'GET /a? HTTP/1.1' + E, extra=['MAXURI=3'])); js.append(hdr('line-uri-over', 'GET /a?c HTTP/1.1' + E, extra=['MAXURI=3']))
    # fields
    for n, q in [('host', 'Host: a??b'), ('host-blank', 'Host:  \\ta?bcd \\t '), ('host-tight', 'Host:a?b'), ('colons', 'Host: a?b:80'), ('name', 'H??t: a?b'), ('name-start', '?ost: ab'), ('name-case', 'hOsT: a?b\\r\\nHosts: no\\r\\nHos: no'), ('empty-values', 'Host:\\r\\nOrigin: \\r\\nUpgrade: \\t'),
                 ('empty-values-2', 'Connection:\\r\\nCookie:  \\r\\n' + K + '\\r\\nX: a?b'), ('upgrade', 'Upgrade: w?b\\r\\nConnection: k?a, Up?de'), ('cookie', 'Cookie: a=b?c; d\\r\\nOrigin: h?p'), ('sec-origin', 'Sec-WebSocket-Origin: h?p'),
                 ('key', K + 'a?b=='), ('key-twice', K + 'ab\\r\\n' + K + 'cd'), ('key-empty-then', K + '\\r\\n' + K + 'c?d'), ('key12', 'Sec-WebSocket-Key1: a?b\\r\\nSec-WebSocket-Key2: c?d'), ('no-colon', 'Host\\r\\nOrigin'), ('unknown', 'X-Foo: a?b\\r\\nHost: c?d'),
                 ('prefixes', 'S: a\\r\\nSec-WebSocket-: b\\r\\nSec-WebSocket-Ke: c\\r\\nHos: d\\r\\nUpgrad: e\\r\\nC: f\\r\\nOrigi: g\\r\\nSec-WebSocket-Origi: g\\r\\nSec-WebSocket-Versio: 13\\r\\nSec-WebSocket-Protoco: echo\\r\\nWebSocket-Protoco: echo\\r\\nSec-WebSocket-Extension: x-aa\\r\\nCooki: g'),
                 ('longer', 'Sec-WebSocket-Keys: c\\r\\nHosts: d\\r\\nUpgrades: e\\r\\nConnections: f\\r\\nOrigins: g\\r\\nSec-WebSocket-Origins: g\\r\\nSec-WebSocket-Versions: 13\\r\\nSec-WebSocket-Protocols: echo\\r\\nWebSocket-Protocols: echo\\r\\nSec-WebSocket-Extensionss: x-aa\\r\\nCookies: g\\r\\nSec-WebSocket-Key12: c')]:
        js.append(hdr('field-' + n, R + q + E))
    # versions
    for n, q in [('13', V + '13'), ('wild', V + '1?3'), ('list', V + '8 , 13, 7'), ('list-wild', V + '7,1?3'), ('none', V + '9'), ('twice', V + '13\\r\\n' + V + '8'), ('twice-low', V + '8\\r\\n' + V + '13'), ('twice-same', V + '7\\r\\n' + V + '7'), ('empty', V), ('blank-list', V + ', ,'), ('old', V + '4,5,6'), ('text', V + 'a?c')]:
        js.append(hdr('version-' + n, R + q + E))
    # subprotocols
    for n, q in [('list', P + 'superchat, c?at , echo'), ('blank', P + ', ,chat'), ('empty', P), ('two', P + 'no?e\\r\\n' + P + 'echo, chat'), ('hixie', 'WebSocket-Protocol: no, e?ho')]:
        js.append(hdr('protocol-' + n, R + q + E))
    # extensions
    for n, q, o in [('list', X + 'x-aa;a?b, x-bb ; c=d?e', 3), ('second', X + 'x-aa;a?b, x-bb ; c=d?e', 2), ('none', X + 'x-aa, x-bb', 0), ('retry', X + 'x-aa;a?b, x-aa', 2), ('again', X + 'x-aa;a?b, x-aa', 1), ('name', X + 'x?aa', 1), ('fields', X + 'x-aa;b\\r\\n' + X + ' c?d ,x-bb', 3),
                    ('blank', X + ', ;, ; x-aa,', 1), ('empty', X + '\\r\\n' + X + 'x-aa', 1), ('semicolon', X + ';', 1), ('unknown', X + 'n?ne;a, x-bb', 1)]:
        js.append(hdr('ext-' + n, R + q + E, weird=n == 'blank', extra=['OKS=%d' % o] + (['ACC=3'] if n in ('none', 'second') else [])))
    for k in range(1, 9): js.append(hdr('ext-oom-%d' % k, R + X + 'x-aa, x-bb' + E, fail=k, extra=['OKS=3', 'ACC=1']))
    # payload and limits
    js.append(hdr('payload', R + 'Host: a' + E + 'x?y')); js.append(hdr('payload-line', 'GET /a HTTP/1.1' + E + 'x?y')); js.append(hdr('payload-max', R + 'Host: a' + E + 'x?y', extra=['MAXPAY=3'])); js.append(hdr('payload-over', R + 'Host: a' + E + 'x?yz', extra=['MAXPAY=3']))
    js.append(hdr('payload-over-line', 'GET /a HTTP/1.1' + E + 'x?yz', extra=['MAXPAY=3']))
    js.append(hdr('header-max', R + 'Host: a\\r\\nX: b?c' + E, extra=['MAXHDR=13'])); js.append(hdr('header-over', R + 'Host: a\\r\\nX: b?cd' + E, extra=['MAXHDR=13']))
    # malformed
    for n, q in [('cut-line', 'GET /a HTTP/1.1'), ('cut-line-2', 'GET /a HTTP/1.1\\r'), ('cut-line-3', 'GET /a HTTP/1.1\\r\\n'), ('cut-field', R + 'Host: a?b'), ('cut-field-2', R + 'Host: a\\r'), ('cut-field-3', R + 'Host: a\\r\\n'), ('cut-end', R + 'Host: a\\r\\n\\r'),
                 ('no-lf', 'GET /a HTTP/1.1\\rHost: a' + E), ('no-lf-2', R + 'Host: a\\rX: b' + E)]:
        js.append(hdr('bad-' + n, q))
    for n, q in [('lf-only', 'GET /a HTTP/1.1\\nHost: a\\n\\n'), ('cr-first', '\\r\\n\\r\\nGET /a HTTP/1.1\\r\\n\\r\\n'), ('colon', R + ':' + E), ('colon-2', R + ': a\\r\\n::' + E), ('blank-name', R + ' : a\\r\\n Host: b' + E), ('one', '?'), ('nothing', ''), ('cr', '\\r'), ('crlf', '\\r\\n'), ('crs', '\\r\\r\\r')]:
        js.append(hdr('odd-' + n, q, weird=True))
    for n in (1, 2, 3): js.append(hdr('any-%d' % n, '?' * n, weird=True, extra=['ARB=1'], bounds_='every request of %d bytes' % n))
    js.append(hdr('any-4', '????', weird=True, extra=['ARB=1'], tiers=T, bounds_='every request of 4 bytes'))
    return js


def uri(name, hosts, paths, queries, port=80, ssl=0, fail=0, tiers=Q, **kw):
    l = lambda x: ''.join('%d,' % v for v in x)
    return Job(name, 'h_uri.c', ['src/http.c'], ['HLEN=' + l(hosts), 'PLEN=' + l(paths), 'QLEN=' + l(queries), 'PORT=%d' % port, 'PORTS="%d"' % port, 'SSL=%d' % ssl, 'FAIL=%d' % fail, 'VP_WILD=1', 'VP_MO=6', 'VP_MK=140'], repo_defs=['-Dregcomp=vp_regcomp'],
               unwind=200, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all', '-lm'], bounds='hosts of %s bytes, paths of %s, queries of %s, any contents, port %d%s%s' % (hosts, paths, queries, port, ', TLS' if ssl else '', ', allocation %d fails' % fail if fail else ''), **kw)


@prop('P21', 'the real pattern construction')
def p21():
    js = []
    for i, (h, p, q) in enumerate([([], [], []), ([1], [], []), ([], [2], []), ([], [], [1]), ([2, 1], [1, 3], [2, 2]), ([1, 0, 2], [0, 1], [1]), ([0], [1], [0]), ([0, 0], [], []), ([3, 2, 1], [2, 2, 2], [1, 2, 3]), ([0], [0], [0, 1]), ([0], [], [0])]):
        js.append(uri('lists-%d' % i, h, p, q)); js.append(uri('tls-%d' % i, h, p, q, port=443, ssl=1))
    for n in (1, 9, 10, 99, 100, 999, 1000, 9011, 9999, 10000, 65535): js.append(uri('port-%d' % n, [2], [1, 1], [1], port=n, ssl=n & 1))
    for f in range(1, 7): js.append(uri('oom-%d' % f, [1, 1], [1], [2], fail=f)); js.append(uri('oom-path-%d' % f, [], [1], [], fail=f, ssl=1))
    return js


def cfgj(name, fail=0, tiers=Q, K=-1, GM=0x00, GK=7, LK=6, hosts='1,', origins='2,', paths='1,', queries='1,', subs='51,', exts='50,', ports=(9010, 9011), defs_=(80, 443), order=0, root=0, what='', **kw):
    d = {'K': K, 'GM': GM, 'GK': GK, 'LK': LK, 'HOSTS': hosts, 'ORIGINS': origins, 'PATHS': paths, 'QUERIES': queries, 'SUBS': subs, 'EXTS': exts, 'PORTH': ports[0], 'PORTS': ports[1], 'DEFH': defs_[0], 'DEFS': defs_[1], 'ORDER': order, 'PROOT': root, 'FAIL': fail}
    return Job(name, 'h_config.c', ['src/config.c', ('src/json.c', {'flags': ['-Djson_parse_ex=real_parse_ex', '-Djson_value_free_ex=real_free_ex']})], ['%s=%s' % x for x in d.items()] + (['VP_WILD=1', 'VP_MO=6', 'VP_MK=160'] if hosts else []), repo_defs=['-Dstrload=vp_strload'], pre=('shadow/alloc.h', 'shadow/json_pre.h'),
               unwind=60, tiers=tiers, simd=SCALAR, native_libs=['-Wl,--unresolved-symbols=ignore-all', '-lm'],
               bounds='documents with settings (groups %d) of kinds %d, groups of kind %d, lists of kind %d, hosts %s, origins %s, paths %s, queries %s, subprotocols %s, extensions %s, ports %s; any values%s' % (GM, K, GK, LK, hosts, origins, paths, queries, subs, exts, ports, ', allocation %d fails' % fail if fail else ''), **kw)


@prop('P19', 'the real configuration loader')
def p19():
    js = [cfgj('all-a', GM=0x2b), cfgj('all-b', GM=0x06, order=1), cfgj('everything', GM=0x2f)]
    for k in range(8):
        for n, m, o in (('', 0x2f, 0), ('-order', 0x2f, 1)): js.append(cfgj('kinds-%d%s' % (k, n), K=k, GM=m, order=o, hosts='', origins='', paths='', queries='', subs='', exts=''))
    for k in (0, 1, 2, 3, 4, 5, 6): js.append(cfgj('groups-%d' % k, GK=k, GM=0x0f))
    for k in (0, 1, 2, 3, 4, 5, 7): js.append(cfgj('lists-%d' % k, LK=k))
    # lists and hosts
    js += [cfgj('empty', hosts='', origins='', paths='', queries='', subs='', exts=''), cfgj('lengths', hosts='2,9,1,', origins='9,1,', paths='3,1,9,', queries='1,2,3,'), cfgj('lengths-2', hosts='3,', origins='1,1,1,', paths='9,', queries='9,9,', order=1)]
    for i, (p, d) in enumerate([((80, -1), (0, 0)), ((-1, 443), (0, 0)), ((-1, -1), (80, 443)), ((-1, -1), (0, 0)), ((0, 0), (80, 443)), ((0, 9011), (80, 443)), ((65535, 0), (80, 443)), ((1, 10), (0, 0)), ((9, 99), (0, 0)), ((100, 999), (0, 0)), ((1000, 9999), (0, 0)), ((10000, 65535), (0, 0)), ((8080, 8080), (0, 0))]):
        js.append(cfgj('ports-%d' % i, ports=p, defs_=d, hosts='2,1,', origins='', paths='', queries='', subs='', exts='', order=i & 1))
    js.append(cfgj('no-port', ports=(0, 0), defs_=(0, 0), hosts='1,1,', subs='50,55,', exts='51,'))
    # invalid elements
    for n in ('hosts', 'origins', 'paths', 'queries'):
        for i, v in enumerate(('-3,', '1,-1,', '-7,1,', '1,2,-6,')): js.append(cfgj('bad-%s-%d' % (n, i), order=i & 1, **{n: v}))
    js.append(cfgj('bad-two', hosts='1,-3,', queries='-3,', exts='99,', order=1))
    for n in ('subs', 'exts'):
        for v in ('50,55,', '53,51,57,', '55,99,', '05,', '15,', '35,55,', '55,75,', '99,'): js.append(cfgj('%s-%s' % (n, v.replace(',', '-').strip('-')), **{n: v}))
    # surroundings
    js += [cfgj('no-file', root=1), cfgj('no-parse', root=2), cfgj('no-object', root=3)]
    for f in range(1, 15): js.append(cfgj('oom-%d' % f, fail=f, hosts='1,2,', order=f & 1))
    return js
