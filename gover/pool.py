"""Ownership of pooled scratch buffers."""
import z3
from logic import *
from exec import SV, Ptr, Opq, Unsupported, MAXLEN

BUF = {'k': 'named', 'name': 'bytes.Buffer', 'u': {'k': 'opaque'}}


def owned_buffer(ex, st, t=None):
    """a buffer whose memory nobody else can reach: modelled as a new region of
    arbitrary content and size"""
    oid = ex.newobj(st, BUF)
    r = ex.newref(st, 'pool')
    for p in st.probes:
        p.hw.append(('b', r))
    st.hw.append(('b', r))
    c = ex.fresh('poolmem', AC)
    st.heaps['b'] = z3.Store(st.heaps['b'], r, c)
    ln, cap = ex.fresh('buflen'), ex.fresh('bufcap')
    ex.assume(st, A(ln >= 0, ln <= cap, cap <= MAXLEN))
    st.objs[oid][('buf',)] = SV('b', r, z3.IntVal(0), ln, cap)
    st.owned[oid] = True
    return Ptr(oid)


def need(ex, st, p):
    """the buffer is used: we must hold it"""
    if not st.owned.get(p.oid):
        ex.check(st, z3.BoolVal(False), 'ownership', 'buffer used without holding it')


def consume(ex, st, p):
    if not isinstance(p, Ptr):
        raise Unsupported('put of %r' % (p,))
    if not st.owned.get(p.oid):
        ex.check(st, z3.BoolVal(False), 'ownership', 'buffer given to the pool without holding it')
    st.owned[p.oid] = False
    b = st.objs[p.oid].get(p.path + ('buf',))
    if b is not None:
        st.dead.append(b.ref)


def check_owned(ex, st, v, what):
    ok = isinstance(v, Ptr) and st.owned.get(v.oid)
    ex.check(st, z3.BoolVal(bool(ok)), 'ownership', 'returned buffer %s is held by nobody else' % what)


def check_consumed(ex, st, v, what):
    # either handed to the pool once (select.send below) or dropped; st.sent counts
    n = st.calls.get('sent:%d' % v.oid, 0)
    ex.check(st, z3.BoolVal(n <= 1), 'ownership', 'buffer %s enters the pool at most once' % what)


def select(ex, st, fr, i):
    import ext
    states = i['states']
    if len(states) != 1 or i['blocking']:
        raise Unsupported('select')
    s0 = states[0]
    reg = i['id']
    st2 = st.fork()
    z = z3.IntVal
    if s0['dir'] == 2:        # receive
        b = owned_buffer(ex, st)
        fr.env[reg] = [z(0), z3.BoolVal(True), b]
        st2.fr.env[reg] = [z(-1), z3.BoolVal(False), Opq('nil', 'nil')]
    else:
        v = ex.val(st, s0['send'])
        if not isinstance(v, Ptr):
            raise Unsupported('send of a value')
        consume(ex, st, v)
        k = 'sent:%d' % v.oid
        st.calls[k] = st.calls.get(k, 0) + 1
        fr.env[reg] = [z(0), z3.BoolVal(False)]
        st2.fr.env[reg] = [z(-1), z3.BoolVal(False)]
    st.fr.ip += 1
    st2.fr.ip += 1
    return [st, st2]


def recv(ex, st, ch):
    return owned_buffer(ex, st)
