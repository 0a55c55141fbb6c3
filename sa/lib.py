"""Models of the standard library, ROS time and message types used by the repository."""
from .core import *
from . import core
from .ev import *
from .ev import mk_fill, mk_obj, mset, concat, isval, simp, env_set, mk_first, subterms, root_of

CONT = ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::map', 'std::multiset', 'std::unordered_map', 'std::unordered_set', 'std::array', 'std::basic_string', 'std::initializer_list')

def begin_loc(b): return b

def builtin(X, fn, e, lval):
    parts = fn.split('::')
    n = parts[-1]
    cls = '::'.join(parts[:-1])
    a = e.get('a') or []
    V = lambda i: X.val(a[i])
    # ---------------------------------------------------------- free functions
    if n == 'demangledTypeName' and len(a) <= 1 and e.get('key'):
        import re as _re
        m = _re.search(r'demangledTypeName<(.*)>\(', e['key']) or _re.search(r'demangledTypeName<(.*)>', e.get('fn', ''))
        t = m.group(1) if m else e['key']
        return mk('typename', t, 'dyn' if a else 'static')
    if cls == 'std::numeric_limits':
        if n in ('lowest', 'min') and (n == 'lowest' and e.get('t') in ('double', 'float') ): return neg(mk('const', 'max', e.get('t')))
        return mk('const', n, e.get('t'))
    if e.get('o') is None and (fn.startswith('std::') or '::' not in fn or fn.startswith('ros::') or fn.startswith('operator') or fn.startswith('boost::')):
        r = free(X, fn, n, e, a, V, lval)
        if r is not NotImplemented: return r
    if e.get('o') is None: return NotImplemented
    # ---------------------------------------------------------- members
    if cls in CONT: return member(X, cls, n, e, a, V, lval)
    if cls in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'boost::shared_ptr'):
        if n in ('operator->', 'get', 'lock'):
            if X.is_lvalue(e['o']): return X.rd(X.lv(e['o']))
            return X.val(e['o'])
        if n == 'operator*':
            p = X.rd(X.lv(e['o'])) if X.is_lvalue(e['o']) else X.val(e['o'])
            X.deref(p, e); L = mk_deref(p)
            return L if lval else X.rd(L)
        if n == 'operator[]':
            p = X.rd(X.lv(e['o'])); i = V(0)
            L = mk('idx', mk_deref(p), i); return L if lval else X.rd(L)
        if n == 'operator bool': return bterm(nonnull(X.rd(X.lv(e['o'])) if X.is_lvalue(e['o']) else X.val(e['o'])))
        if n in ('operator=', 'reset'):
            v = V(0) if a else NULL
            L = X.lv(e['o']); X.wr(L, v, e, op='=')
            if n == 'operator=' and a and a[0].get('k') == 'call' and base_name(a[0].get('fn', '')).endswith('std::move'): pass
            return L if lval else v
        if n == 'release':
            L = X.lv(e['o']); v = X.rd(L); X.wr(L, NULL, e); return v
        if n == 'swap': return swap(X, e['o'], a[0], e)
        if n == 'use_count': return mk('call', fn, X.rd(X.lv(e['o'])))
        if n in ('expired',): return mk('call', fn, X.rd(X.lv(e['o'])))
    if cls in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
        L = X.lv(e['o']); v = X.rd(L)
        ms = v.args if v.op == 'lockobj' else ()
        if n == 'unlock':
            for m in ms:
                if m in X.st.locks:
                    l = list(X.st.locks); l.reverse(); l.remove(m); l.reverse(); X.st.locks = tuple(l); X.ev('unlock', e, val=m)
            return mk('void')
        if n == 'lock':
            for m in ms: X.ev('lock', e, val=m); X.st.locks += (m,); X.scope.append(m)
            return mk('void')
        if n in ('owns_lock', 'operator bool'): return TRUE_T
        if n == 'try_lock':
            for m in ms: X.ev('trylock', e, val=m)
            return mk('call', 'try_lock', *ms)
    if cls in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex', 'std::shared_mutex'):
        L = X.lv(e['o'])
        if n == 'lock': X.ev('lock', e, val=L); X.st.locks += (L,); return mk('void')
        if n == 'unlock':
            if L in X.st.locks:
                l = list(X.st.locks); l.reverse(); l.remove(L); l.reverse(); X.st.locks = tuple(l)
            X.ev('unlock', e, val=L); return mk('void')
    if cls in ('std::atomic', 'std::__atomic_base', 'std::__atomic_float'):
        L = X.lv(e['o'])
        if n in ('load',) or n.startswith('operator ') or n.startswith('operator std') :
            if L.op == 'f' and L.args[1] in X.track: X.ev('read', e, loc=L)
            return X.rd(L)
        if n in ('store', 'operator='):
            v = V(0); X.wr(L, v, e, op='='); return L if lval else v
        if n == 'exchange':
            v = V(0); o = X.rd(L); X.wr(L, v, e); return o
        if n.startswith('operator') and not n.startswith('operator()'):
            op = n[8:]
            if op in ('++', '--'):
                o = X.rd(L); X.wr(L, add(o, C(1 if op == '++' else -1)), e); return o
            if op.endswith('='):
                v = X.binop(op[:-1], X.rd(L), V(0), e); X.wr(L, v, e); return v
            return X.rd(L)
        if n in ('compare_exchange_strong', 'compare_exchange_weak'):
            exp = X.lv(a[0]); des = V(1); cur = X.rd(L)
            ok = eq(cur, X.rd(exp)); X.wr(L, mk_ite(ok, des, cur), e); return bterm(ok)
        if n in ('fetch_add', 'fetch_sub'):
            o = X.rd(L); X.wr(L, (add if n == 'fetch_add' else sub)(o, V(0)), e); return o
    if cls in ('std::pair',):
        if n == 'operator=':
            v = V(0); L = X.lv(e['o']); X.wr(L, v, e); return L if lval else v
    if cls.startswith(('std::_Rb_tree', 'std::_List_iterator', 'std::_List_const_iterator', 'std::__normal_iterator', 'std::reverse_iterator', 'std::_Node_iterator', 'std::__detail')) or 'iterator' in cls:
        if n in ('operator*', 'operator->'):
            it = X.rd(X.lv(e['o'])) if X.is_lvalue(e['o']) else X.val(e['o'])
            r = deref_iter(X, it, e)
            if n == 'operator->': return mk('addr', r)
            return r if lval else X.rd(r)
        if n in ('operator++', 'operator--'):
            L = X.lv(e['o']); v = X.rd(L); d = 'next' if n == 'operator++' else 'prev'
            nv = mk(d, v); X.wr(L, nv, e); return v if a else nv
        if n in ('operator==', 'operator!='):
            x = X.val(e['o']); y = V(0); f = eq(x, y)
            return bterm(f if n == 'operator==' else NOT(f))
        if n in ('operator+', 'operator-'):
            x = X.val(e['o']); y = V(0)
            return iter_add(x, y if n == 'operator+' else neg(y))
        if n == 'operator+=':
            L = X.lv(e['o']); v = iter_add(X.rd(L), V(0)); X.wr(L, v, e); return v
        if n == 'operator[]':
            x = X.val(e['o']); r = deref_iter(X, iter_add(x, V(0)), e); return r if lval else X.rd(r)
        if n == 'base': return X.val(e['o'])
        if n == 'operator=':
            L = X.lv(e['o']); v = V(0); X.wr(L, v, e); return L if lval else v
    if cls in ('ros::Time', 'ros::Duration', 'ros::TimeBase', 'ros::DurationBase', 'ros::WallTime', 'ros::WallDuration', 'std::chrono::duration', 'std::chrono::time_point'):
        return rostime(X, n, e, a, V, lval)
    if cls in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ostream', 'std::basic_istringstream'):
        if n == 'str' and not a:
            return X.rd(X.lv(e['o'])) if X.is_lvalue(e['o']) else X.val(e['o'])
        if n == 'str':
            L = X.lv(e['o']); X.wr(L, V(0), e, quiet=True); return mk('void')
        if n == 'operator<<':
            return stream(X, e['o'], a[0], lval)
        return mk('call', fn, None)
    if cls == 'std::function' and n == 'operator()':
        f = X.rd(X.lv(e['o'])) if X.is_lvalue(e['o']) else X.val(e['o'])
        return X.call_lambda(f, [argof(X, x) for x in a])
    if cls == 'std::function' and n == 'operator bool': return bterm(nonnull(X.val(e['o'])))
    if n == 'operator()' :
        f = X.val(e['o'])
        if f.op in ('lambda', 'func'): return X.call_lambda(f, [argof(X, x) for x in a])
    if n == 'operator=' and len(a) == 1:
        f = X.F.get(e.get('key'))
        if f is None or f.get('body') is None:     # implicit copy or move assignment
            v = V(0); L = X.lv(e['o']); X.wr(L, v, e); return L if lval else v
    if n == 'what' or cls in ('std::exception', 'std::runtime_error') : return mk('call', fn, None)
    if cls in ('std::type_info', 'std::type_index'):
        if n == 'name': return X.val(e['o'])
        if n in ('operator==', 'operator!='):
            f = eq(X.val(e['o']), V(0)); return bterm(f if n == 'operator==' else NOT(f))
    if n == 'str' and cls.startswith('std::'): return X.val(e['o'])
    return NotImplemented

def argof(X, x):
    if X.is_lvalue(x): return X.lv(x)
    return X.val(x)

def swap(X, x, y, e):
    L1, L2 = X.lv(x), X.lv(y)
    v1, v2 = X.rd(L1), X.rd(L2)
    X.wr(L1, v2, e, op='swap'); X.wr(L2, v1, e, op='swap')
    return mk('void')

def iter_add(x, y):
    if x.op == 'beg': return mk('iteri', x.args[0], y)
    if x.op == 'iteri': return mk('iteri', x.args[0], add(x.args[1], y))
    return mk('iter+', x, y)

def deref_iter(X, it, e):
    if it.op == 'case': return mk('case', *[(deref_iter(X, v, e), g) for v, g in it.args])
    if it.op == 'iter': r = it.args[0]; return r if r.op == 'bv' else X.tmp(r)
    if it.op == 'iteri': return X.tmp(mk_idx(it.args[0], it.args[1]))
    r = mk_deref(it)
    if r.op == 'case': return mk('case', *[(v if not isval(v) else X.tmp(v), g) for v, g in r.args])
    if r.op == 'pair' and it.op == 'mfind' and len(it.args) > 2:
        t = X.tmp(r); X.mpairs[t] = (it.args[2], it.args[1]); return t
    return r if not isval(r) else X.tmp(r)

def rostime(X, n, e, a, V, lval):
    L = X.lv(e['o']) if X.is_lvalue(e['o']) else None
    o = X.rd(L) if L is not None else X.val(e['o'])
    if n in ('toSec', 'toNSec', 'count', 'time_since_epoch'): return o
    if n == 'fromSec':
        X.wr(L, V(0), e); return o
    if n == 'isZero': return bterm(eq(o, C(0)))
    if n == 'sleep': X.ev('call', e, fn='ros::Duration::sleep', obj=o, args=[], ret=None); return TRUE_T
    if n in ('operator=',): v = V(0); X.wr(L, v, e); return L if lval else v
    if n in ('operator+', 'operator-', 'operator*', 'operator/') and a: return X.binop(n[8:], o, V(0), None)
    if n == 'operator-': return neg(o)
    if n in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='): return X.binop(n[8:], o, V(0), None)
    if n in ('operator+=', 'operator-=', 'operator*='):
        v = X.binop(n[8:-1], o, V(0), None); X.wr(L, v, e); return v
    return NotImplemented

def stream(X, o, x, lval):
    if not X.is_lvalue(o) :
        X.val(o); X.val(x); return X.tmp(mk('void')) if lval else mk('void')
    L = X.lv(o)
    v = X.val(x)
    if root_of(L).op in ('glob',): return L if lval else mk('void')
    cur = X.rd(L)
    if cur.op in ('new0', 'undef'): cur = EMPTY_STR
    X.wr(L, concat(cur, v), None, quiet=True)
    return L if lval else cur

def pred_form(X, lam, el):
    """Formula of a predicate applied to a collection element."""
    l0 = X.st.live; p0 = X.prefix; b0 = X.binders
    have = {b.v for b in b0}
    X.binders = b0 + [Binder(w, core.BVCOLL[w]) for w in sorted(bvs(el)) if w not in have and w in core.BVCOLL]
    X.prefix = AND(p0, l0); X.st.live = TRUE
    v = X.call_lambda(lam, [el])
    X.st.live = l0; X.prefix = p0; X.binders = b0
    return truth(v) if v is not None else TRUE

def pred_pure(X, lam, coll):
    """True if calling the predicate on an element has no effect and cannot throw."""
    st, ne, nn, cc = X.st, len(X.events), len(X.notes), dict(X.callcount)
    nx = [len(c.exits) for c in X.ctxs]
    X.st = st.copy(); e0 = dict(X.st.env)
    pred_form(X, lam, fresh_bv(coll))
    env = X.st.env
    pure = len(X.events) == ne and [len(c.exits) for c in X.ctxs] == nx and len(X.notes) == nn
    if pure:
        from .ev import root_of
        pure = all(e0.get(K) is v for K, v in env.items() if root_of(K).op != 'tmp' and (root_of(K).op != 'var' or root_of(K) in e0))
    del X.events[ne:]; del X.notes[nn:]; X.callcount = cc; X.st = st
    for c, k in zip(X.ctxs, nx): del c.exits[k:]
    return pure

def pred_loop(X, n, lam, coll, e):
    """any_of and its kin as the loop they stand for."""
    R = mk('var', X.fr.n, 'alg%s' % X.fresh(), n)
    X.st.env[R] = C(0) if n == 'count_if' else bterm(FALSE if n == 'any_of' else TRUE)
    def hit():
        if n == 'count_if': X.st.env[R] = X.incr(X.rd(R), 1); return
        X.st.env[R] = bterm(TRUE if n == 'any_of' else FALSE); X.exit('brk', None, e)
    def body():
        f = truth(X.call_lambda(lam, [X._el]))
        X.branch(NOT(f) if n == 'all_of' else f, hit, lambda: None)
    X.foreach(coll, lambda el: X.__dict__.__setitem__('_el', el), body, e)
    return X.rd(R)

def free(X, fn, n, e, a, V, lval):
    if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'move_if_noexcept') and len(a) == 1:
        if lval: return X.lv(a[0])
        return X.val(a[0])
    if n == 'addressof' and len(a) == 1: return mk('addr', X.lv(a[0]))
    if n == 'swap' and len(a) == 2: return swap(X, a[0], a[1], e)
    if n in ('iter_swap',): X.note(e, n); return mk('void')
    if n == 'exchange' and len(a) == 2:
        L = X.lv(a[0]); o = X.rd(L); X.wr(L, V(1), e); return o
    if n in ('min', 'max') and len(a) == 2: return (mk_min if n == 'min' else mk_max)(V(0), V(1))
    if n in ('min', 'max') and len(a) == 1:
        v = V(0)
        if v.op == 'arr': return (mk_min if n == 'min' else mk_max)(*v.args)
    if n == 'clamp' and len(a) >= 3:
        v, lo, hi = V(0), V(1), V(2)
        return mk_max(lo, mk_min(v, hi))
    if n in ('abs', 'fabs', 'fabsf', 'labs') and len(a) == 1: return absval(V(0))
    if n in ('sqrt', 'sin', 'cos', 'floor', 'ceil', 'round') and len(a) == 1: return mk('call', n, None, V(0))
    if n in ('isnan', 'isfinite', 'isinf', 'signbit') and len(a) == 1: return bterm(atom(mk('call', n, None, V(0))))
    if n in ('get_pointer', 'static_pointer_cast', 'const_pointer_cast', 'to_string') and len(a) == 1 and n != 'to_string': return V(0)
    if n in ('dynamic_pointer_cast',): return mk('dyncast', e.get('t', ''), V(0))
    if n in ('make_shared', 'make_unique', 'allocate_shared'):
        t = elem_type(e.get('t', ''))
        return make_obj(X, t, e, a)
    if n == 'make_pair' and len(a) == 2: return mk('pair', V(0), V(1))
    if n in ('begin', 'cbegin', 'end', 'cend') and len(a) == 1: return mk('beg' if 'b' in n else 'end', V(0))
    if n == 'next' and len(a) >= 1:
        v = V(0); return iter_add(v, V(1)) if len(a) > 1 else iter_add(v, C(1))
    if n == 'advance' and len(a) == 2:
        L = X.lv(a[0]); X.wr(L, iter_add(X.rd(L), V(1)), e); return mk('void')
    if n == 'distance' and len(a) == 2:
        x, y = V(0), V(1)
        if x.op == 'beg' and y.op == 'end': return mk_size(x.args[0])
        if x.op == 'beg': return mk('pos_of', y)
    if n in ('size',) and len(a) == 1: return mk_size(V(0))
    if n == 'empty' and len(a) == 1: return bterm(lenform(V(0)))
    if n.startswith('operator') and len(a) == 2:
        op = n[8:]
        if op == '<<':
            t = e.get('t', '')
            if 'stream' in t: return stream(X, a[0], a[1], lval)
        x, y = V(0), V(1)
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/'): 
            return X.binop(op, x, y, None)
    if n in ('operator*',) and len(a) == 1: return NotImplemented
    if n in ('strcmp',) and len(a) == 2: return mk_ite(eq(V(0), V(1)), C(0), C(1))
    if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'for_each', 'copy_if', 'remove_copy_if', 'transform', 'remove_if', 'copy', 'find', 'count', 'accumulate', 'binary_search', 'sort', 'unique', 'fill', 'remove', 'reverse', 'lower_bound', 'copy_n', 'set_difference', 'set_intersection', 'set_union', 'stable_sort', 'equal', 'partition', 'stable_partition', 'max_element', 'min_element', 'generate') and len(a) >= 2:
        return algo(X, n, e, a, V, lval)
    if n in ('back_inserter', 'inserter', 'front_inserter'):
        return mk('inserter', X.lv(a[0]))
    if n in ('make_tuple', 'tie', 'forward_as_tuple'): return mk('tuple', *[X.val(x) for x in a])
    if n == 'demangle' or n.endswith('demangledTypeName') and False: return mk('call', fn, None, *[X.val(x) for x in a])
    if n == 'get' and len(a) == 1:
        v = V(0)
    if n == '__assert_fail': return mk('void')
    if n in ('stod', 'stof', 'stoi', 'strtod', 'atof', 'to_string'):
        return NotImplemented
    return NotImplemented

def make_obj(X, t, e, a):
    n = X.newobj(t)
    L = mk_deref(n)
    args = [x for x in a]
    # find the constructor by parameter count in the repository
    cands = [f for f in X.F.values() if f.get('ctor') and f.get('clst') == t and len(f['params']) >= len(args) and all('def' in p for p in f['params'][len(args):])
             and not (len(f['params']) == 1 and base_name(f['params'][0]['t'].replace('const ', '').rstrip('& ')) == base_name(t))]
    if len(cands) > 1:
        pl = lambda t: t.replace('const ', '').rstrip('& ')
        m = [f for f in cands if all(pl(p['t']) == pl(x.get('t', '?')) for p, x in zip(f['params'], args))]
        cands = m if len(m) == 1 else cands
    if base_name(t).split('<')[0] + '::' + base_name(t).split('<')[0].split('::')[-1] in X.opaque:
        X.ctor_into(dict(e, k='ctor', t=t, fn=base_name(t) + '::' + base_name(t).split('::')[-1], key=cands[0]['key'] if len(cands) == 1 else None, a=args), L)
        return n
    if len(cands) == 1 and cands[0]['key'] not in X.stack and len(X.stack) < X.MAXDEPTH and cands[0].get('body') is not None:
        f = cands[0]
        X.st.env[L] = mk('new0', t)
        av = X.bindargs(f, {'a': args})
        X.inline(f, L, av)
        return n
    vs = [X.val(x) for x in args]
    if vs: X.st.env[L] = mk('ctor', base_name(t), *vs)
    else: X.st.env[L] = mk('new0', t)
    if t not in X.M['records'] or vs: X.ev('call', e, fn=base_name(t) + '::' + base_name(t).split('::')[-1], obj=None, args=vs, extra='ctor', ret=mk('ctor', base_name(t), *vs))
    return n

def seqrange(X, a, i=0):
    b, e_ = X.val(a[i]), X.val(a[i + 1])
    if b.op == 'beg' and e_.op == 'end' and b.args[0] is e_.args[0]: return b.args[0]
    if b.op == 'addr' and b.args[0].op == 'idx': return None
    return None

def seq_filter(coll, pred):
    """[x in coll | pred(x)] as a comprehension."""
    if coll.op == 'seq0': return SEQ0
    if coll.op == 'app':
        out = seq_filter(coll.args[0], pred)
        for bs, g, x in coll.args[1]:
            m, fresh = {}, []
            for v, c in bs:
                c2 = Subst(m).term(c) if m else c
                w = fresh_bv(c2); fresh.append((w, c2)); m[v] = w
            S = Subst(m); y = S.term(x)
            out = append_seg(out, fresh, AND(S.formula(g.args[0]), pred(y)), y)
        return out
    if coll.op == 'arr':
        out = SEQ0
        for x in coll.args: out = append_seg(out, [], pred(x), x)
        return out
    if core.INST and core.elems(coll) is not coll: return seq_filter(core.elems(coll), pred)
    v = fresh_bv(coll)
    return append_seg(SEQ0, [(v, coll)], pred(v), v)

def algo(X, n, e, a, V, lval):
    coll = seqrange(X, a)
    if coll is None:
        X.note(e, 'algorithm over a partial range'); 
        for x in a: X.val(x)
        return mk('call', n, None, mk('n', X.fresh()))
    if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_copy_if', 'remove_if'):
        lam = X.val(a[-1])
        pf = lambda el: pred_form(X, lam, el)
        if coll.op not in ('seq0', 'new0') and n in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'copy_if', 'remove_copy_if', 'remove_if') and not pred_pure(X, lam, coll):
            if n in ('any_of', 'all_of', 'none_of', 'count_if'): return pred_loop(X, n, lam, coll, e)
            X.note(e, n + ' with a predicate that has effects')
        if n == 'any_of': return bterm(seq_exists(coll, pf))
        if n == 'none_of': return bterm(NOT(seq_exists(coll, pf)))
        if n == 'all_of': return bterm(NOT(seq_exists(coll, lambda x: NOT(pf(x)))))
        if n in ('find_if', 'find_if_not'):
            q = pf if n == 'find_if' else (lambda el: NOT(pf(el)))
            return mk_find(coll, q)
        if n == 'count_if': return mk_size(seq_filter(coll, pf))
        if n in ('copy_if', 'remove_copy_if'):
            ins = X.val(a[2])
            q = pf if n == 'copy_if' else (lambda el: NOT(pf(el)))
            if ins.op == 'inserter':
                cur = X.rd(ins.args[0]); f = seq_filter(coll, q)
                X.wr(ins.args[0], seq_cat(cur, f), e, op='append'); return mk('void')
        if n == 'remove_if':
            return mk('removed', coll, seq_filter(coll, lambda el: NOT(pf(el))))
    if n == 'remove':
        x = V(2); return mk('removed', coll, seq_filter(coll, lambda el: NOT(eq(el, x))))
    if n == 'find':
        x = V(2); return mk_find(coll, lambda el: eq(el, x))
    if n == 'count':
        x = V(2); return mk('count', coll, x, fm(seq_exists(coll, lambda el: eq(el, x))))
    if n == 'binary_search':
        x = V(2); return bterm(seq_exists(coll, lambda el: eq(el, x)))
    if n == 'copy':
        ins = V(2)
        if ins.op == 'inserter':
            X.wr(ins.args[0], seq_cat(X.rd(ins.args[0]), coll), e, op='append'); return mk('void')
        if ins.op == 'beg':
            X.note(e, 'copy into an existing range'); return mk('void')
    if n in ('sort', 'stable_sort'):
        L = cont_of(X, a[0])
        if L is not None: X.wr(L, mk('sorted', coll), e, op='sort')
        return mk('void')
    if n == 'for_each':
        lam = X.val(a[2])
        X.foreach(coll, lambda el: X.__dict__.__setitem__('_el', el), lambda: X.call_lambda(lam, [X._el]), e)
        return lam
    if n == 'transform' and len(a) == 4:
        ins = V(2); lam = V(3)
        if ins.op == 'inserter':
            L = ins.args[0]
            def body():
                v = X.call_lambda(lam, [X._el]); X.wr(L, append_seg(X.rd(L), [], TRUE, v), e, op='append')
            X.foreach(coll, lambda el: X.__dict__.__setitem__('_el', el), body, e)
            return mk('void')
    if n == 'fill':
        L = cont_of(X, a[0]); v = V(2)
        if L is not None:
            X.wr(L, mk('arr', *[v] * len(coll.args)) if coll.op == 'arr' else mk_fill(mk_size(coll), v), e)
            return mk('void')
    X.note(e, 'algorithm ' + n)
    return mk('call', n, None, coll, *[X.val(x) for x in a[2:]])

def cont_of(X, x):
    """Location of c in c.begin()."""
    if x.get('k') == 'call' and x.get('o') is not None and X.is_lvalue(x['o']): return X.lv(x['o'])
    if x.get('k') == 'call' and x.get('a') and X.is_lvalue(x['a'][0]): return X.lv(x['a'][0])
    return None

def mk_find(coll, q):
    ex = seq_exists(coll, q)
    v = fresh_bv(coll)
    f = q(v)
    if core.INST:
        r = core.first_of(coll, q)
        if r is not None: return mk('find', coll, fm(TRUE), fm(ex), r)
    u = core.core_uniq(v, f, coll)
    if u is not None: return mk('find', coll, fm(TRUE), fm(ex), u[0])
    k = one_point(v, f)
    if k is not None and k[0] == 'elem': return mk('find', coll, fm(TRUE), fm(ex), k[1])
    if k is not None: return mk('find', coll, fm(TRUE), fm(ex), mk('pair', k[1], mget(coll, k[1])))
    h = max(fdepth(f), depth_of(coll)) + 1
    return mk('find', coll, fm(Subst({v: mk('bvc', h)}).formula(f)), fm(ex), h)

def seq_cat(x, y):
    if y.op == 'seq0': return x
    if x.op == 'seq0': return y
    if y.op == 'app':
        out = seq_cat(x, y.args[0])
        for bs, g, el in y.args[1]:
            m, fresh = {}, []
            for v, c in bs:
                c2 = Subst(m).term(c) if m else c
                w = fresh_bv(c2); fresh.append((w, c2)); m[v] = w
            S = Subst(m)
            out = append_seg(out, fresh, S.formula(g.args[0]), S.term(el))
        return out
    if y.op == 'arr':
        for el in y.args: x = append_seg(x, [], TRUE, el)
        return x
    if y.op == 'case':
        return mk_case([(g.args[0], seq_cat(x, v)) for v, g in y.args])
    v = fresh_bv(y)
    return append_seg(x, [(v, y)], TRUE, v)

def member(X, cls, n, e, a, V, lval):
    o = e['o']
    isl = X.is_lvalue(o)
    if e.get('arrow'):
        p = X.val(o); X.deref(p, e); L = mk_deref(p); 
        if isval(L): L = X.tmp(L)
    else:
        L = X.lv(o) if isl else X.tmp(X.val(o))
    if L.op == 'case' and n in ('push_back', 'insert', 'clear', 'emplace_back'):
        alts = list(L.args)
        def go(i):
            if i == len(alts) - 1: return member_at(X, cls, n, e, a, V, lval, alts[i][0])
            return X.branch(alts[i][1].args[0], lambda: member_at(X, cls, n, e, a, V, lval, alts[i][0]), lambda: go(i + 1), vals=True)
        return go(0)
    return member_at(X, cls, n, e, a, V, lval, L)

def member_at(X, cls, n, e, a, V, lval, L):
    v = X.rd(L)
    ismap = cls in ('std::map', 'std::unordered_map')
    isset = cls in ('std::set', 'std::unordered_set', 'std::multiset')
    isstr = cls == 'std::basic_string'
    if n in ('begin', 'cbegin'): return mk('beg', v)
    if n in ('end', 'cend'): return mk('end', v)
    if n in ('rbegin', 'rend', 'crbegin', 'crend'): X.note(e, 'reverse iteration'); return mk(n.replace('c', ''), v)
    if n in ('size', 'length'): return mk_ssize(v) if isset else mk_size(v)
    if n == 'empty': return bterm(lenform(v))
    if n in ('reserve', 'shrink_to_fit', 'capacity'):
        for i in range(len(a)): V(i)
        return mk('void')
    if isstr:
        if n in ('c_str', 'data'): return v
        if n in ('operator=', 'assign') and len(a) == 1:
            x = V(0); X.wr(L, x, e); return L if lval else x
        if n in ('operator+=', 'append') and len(a) == 1:
            x = concat(v, V(0)); X.wr(L, x, e); return L if lval else x
        if n == 'compare' and len(a) == 1: return mk_ite(eq(v, V(0)), C(0), C(1))
        if n == 'clear': X.wr(L, EMPTY_STR, e); return mk('void')
        if n == 'push_back': X.wr(L, concat(v, V(0)), e); return mk('void')
        if n in ('operator[]', 'at', 'back', 'front'):
            r = mk('chr', v, V(0) if a else C(0)); return X.tmp(r) if lval else r
        return mk('call', 'std::string::' + n, v, *[X.val(x) for x in a])
    if n == 'clear': X.wr(L, SEQ0, e, op='clear'); return mk('void')
    if n in ('operator=', 'assign') and len(a) == 1:
        x = X.val(a[0], want=e.get('ot')); X.wr(L, x, e, op='='); return L if lval else x
    if n == 'assign' and len(a) == 2:
        x, y = V(0), V(1)
        if x.op == 'beg' and y.op == 'end' and x.args[0] is y.args[0]: X.wr(L, x.args[0], e, op='=')
        else: X.wr(L, mk_fill(x, y), e, op='=')
        return mk('void')
    if n == 'swap':
        L2 = X.lv(a[0]); v2 = X.rd(L2); X.wr(L, v2, e, op='swap'); X.wr(L2, v, e, op='swap'); return mk('void')
    if n in ('resize',):
        k = V(0); x = V(1) if len(a) > 1 else None
        et = elem_type(e.get('clst') or e.get('ot') or '')
        d = x if x is not None else zero_value(et)
        if is_num(k) and v.op in ('arr', 'app') and is_num(mk_size(v)):
            xs = list(v.args) if v.op == 'arr' else [s[2] for s in v.args[1]]
            m = int(num(k)); xs = xs[:m] + [d] * (m - len(xs)); X.wr(L, mk('arr', *xs) if xs else SEQ0, e, op='resize')
        elif v.op == 'seq0': X.wr(L, mk_fill(k, d), e, op='resize')
        elif sub(k, mk_size(v)) is C(1): X.wr(L, append_seg(v, [], TRUE, d), e, op='resize')
        else: X.wr(L, mk('resized', v, k, d), e, op='resize')
        return mk('void')
    if ismap:
        if n == 'find': return mk('mfind', v, V(0), L)
        if n == 'lower_bound' and a:
            # the entry of the key, or the next one
            k = V(0); h = has(v, k); g = hasge(v, k)
            return mk_case([(h, mk('mfind', v, k, L)), (AND(NOT(h), g), mk('iter', mk('pair', mk_lb('lbkey', v, k), mk_lb('lbval', v, k)), v)), (AND(NOT(h), NOT(g)), mk('end', v))])
        if n == 'count': x = V(0); return mk('count', v, x, fm(has(v, x)))
        if n in ('operator[]',):
            k = V(0)
            return ml(X, L, v, k, lval, e)
        if n == 'at':
            k = V(0)
            if X.ntry:
                g = AND(X.st.live, NOT(has(v, k)))
                if g: X.ctxs_throw(g, 'std::out_of_range', e)
            LL = mk('mval', L, k)
            return LL if lval else X.rd(LL)
        if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
            if n == 'emplace_hint' and len(a) == 3: k, x = V(1), V(2)
            elif len(a) == 2 and n != 'insert': k, x = V(0), V(1)
            elif n == 'emplace' and len(a) == 1 or n == 'insert' and len(a) == 1:
                p = V(0); k, x = mk_field(p, 'first'), mk_field(p, 'second')
            else:
                p = V(len(a) - 1); k, x = mk_field(p, 'first'), mk_field(p, 'second')
            h = has(v, k)
            if n == 'insert_or_assign': X.wr(L, mset(v, k, x), e, op='insert')
            else: X.wr(L, simp(mk_ite(h, v, mset(v, k, x)), AND(X.prefix, X.st.live)), e, op='insert')
            return mk('pair', mk('mfind', mset(v, k, x), k, L), bterm(NOT(h)))
        if n == 'erase':
            if len(a) == 1:
                k = V(0)
                if k.op == 'mfind': k = k.args[1]
                X.wr(L, mk('merase', v, k), e, op='erase'); return C(1)
    if isset:
        if n == 'find':
            x = V(0); return mk_find(v, lambda el: eq(el, x))
        if n == 'count': x = V(0); return mk('count', v, x, fm(seq_exists(v, lambda el: eq(el, x))))
        if n in ('insert', 'emplace') and len(a) == 1:
            x = X.val(a[0])
            h = seq_exists(v, lambda el: eq(el, x))
            X.wr(L, append_seg(v, [], TRUE, x), e, op='append')
            return mk('pair', mk('iter', x, v), bterm(NOT(h)))
        if n == 'erase' and len(a) == 1:
            x = V(0)
            if x.op == 'find':
                f = x
                X.wr(L, seq_filter(v, lambda el: NOT(eq(el, f.args[3]) if isinstance(f.args[3], T) else Subst({mk('bvc', f.args[3]): el}).formula(f.args[1].args[0]))), e, op='erase')
            elif x.op == 'iter': X.wr(L, mk('without', v, x.args[0]), e, op='erase')
            else: X.wr(L, seq_filter(v, lambda el: NOT(eq(el, x))), e, op='erase')
            return mk('void')
        if n == 'insert' and len(a) == 2:
            r = seqrange(X, a)
            if r is not None: X.wr(L, seq_cat(v, r), e, op='append'); return mk('void')
    if n in ('push_back', 'emplace_back'):
        if n == 'emplace_back' and len(a) != 1:
            et = elem_type(e.get('clst') or '')
            p = make_obj(X, et, e, a) if a else None
            x = X.rd(mk_deref(p)) if p is not None else zero_value(et)
        else: x = V(0)
        nv = mk('arr', *(v.args + (x,))) if v.op == 'arr' else append_seg(v, [], TRUE, x)
        X.wr(L, nv, e, op='append')
        if n == 'emplace_back' and lval: return mk('idx', L, mk('c', 'back'))
        return mk('void')
    if n in ('front', 'back') and not a:
        if n == 'front': r = mk('idx', L, C(0))
        else:
            if v.op == 'app' and not v.args[1][-1][0] and v.args[1][-1][1].args[0] == 1 and not lval: return v.args[1][-1][2]
            r = mk('idx', L, mk('c', 'back'))
        return r if lval else X.rd(r)
    if n in ('at', 'operator[]') and len(a) == 1:
        i = V(0); r = X.elem(L, i); return r if lval else X.rd(r)
    if n == 'pop_back': X.wr(L, mk('popped', v), e, op='pop'); return mk('void')
    if n == 'insert' and len(a) == 3:
        pos = V(0)
        r = seqrange(X, a, 1)
        if r is not None and pos.op == 'end': X.wr(L, seq_cat(v, r), e, op='append'); return mk('void')
        if r is not None: X.wr(L, mk('inserted', v, pos, r), e, op='insert'); return mk('void')
        r0 = [X.val(x) for x in a[1:]]
        X.wr(L, mk('inserted', v, pos, *r0), e, op='insert'); return mk('void')
    if n in ('insert', 'emplace') and len(a) == 2:
        pos, x = V(0), V(1)
        if pos.op == 'end': X.wr(L, append_seg(v, [], TRUE, x), e, op='append')
        else: X.wr(L, mk('inserted', v, pos, x), e, op='insert')
        return mk('void')
    if n == 'erase':
        x = V(0)
        if len(a) == 2:
            y = V(1)
            if x.op == 'removed' and y.op == 'end': X.wr(L, x.args[1], e, op='erase'); return mk('void')
            X.note(e, 'range erase'); X.wr(L, mk('erased', v, x, y), e, op='erase'); return mk('void')
        if x.op == 'find' and x.args[0] is v and isinstance(x.args[3], T) and x.args[1].args[0] == 1:
            # the first occurrence only: repetitions stay
            k = x.args[3]; X.wr(L, seq_filter(v, lambda el: OR(NOT(eq(el, k)), atom(mk('dup', el)))), e, op='erase')
        elif x.op == 'find': X.wr(L, mk('erase1', v, x.args[1], x.args[3]), e, op='erase')
        elif x.op == 'iter': X.wr(L, mk('without', v, x.args[0]), e, op='erase')
        else: X.wr(L, mk('erased', v, x), e, op='erase')
        return mk('next', x)
    if n == 'remove' and len(a) == 1:
        x = V(0); X.wr(L, seq_filter(v, lambda el: NOT(eq(el, x))), e, op='erase'); return mk('void')
    if n == 'remove_if':
        lam = V(0); X.wr(L, seq_filter(v, lambda el: NOT(pred_form(X, lam, el))), e, op='erase'); return mk('void')
    if n in ('operator==', 'operator!='):
        f = eq(v, V(0)); return bterm(f if n == 'operator==' else NOT(f))
    if n == 'data': return mk('addr', mk('idx', L, C(0)))
    if n == 'push_front':
        X.wr(L, mk('inserted', v, mk('beg', v), V(0)), e, op='insert'); return mk('void')
    X.note(e, 'container operation ' + n)
    return mk('call', 'std::' + n, v, *[X.val(x) for x in a])

def ml(X, L, v, k, lval, e):
    if lval: return mk('mval', L, k)
    h = has(v, k)
    if h == 1: return mget(v, k)
    return X.rd(mk('mval', L, k))
