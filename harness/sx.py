"""z3 expression <-> engine s-expressions; engine records -> z3"""
import z3

_K = {
    z3.Z3_OP_BADD: 'add', z3.Z3_OP_BSUB: 'sub', z3.Z3_OP_BMUL: 'mul', z3.Z3_OP_BAND: 'and', z3.Z3_OP_BOR: 'or',
    z3.Z3_OP_BXOR: 'xor', z3.Z3_OP_BSHL: 'shl', z3.Z3_OP_BLSHR: 'lshr', z3.Z3_OP_BASHR: 'ashr',
    z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM_I: 'urem',
    z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or', z3.Z3_OP_CONCAT: 'concat', z3.Z3_OP_EQ: 'eq', z3.Z3_OP_IFF: 'eq',
}


def to_sexpr(e):
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        return str(e)
    if k == z3.Z3_OP_BNUM:
        return '(bv %d %d)' % (e.as_long(), e.size())
    if k == z3.Z3_OP_TRUE:
        return '(bv 1 1)'
    if k == z3.Z3_OP_FALSE:
        return '(bv 0 1)'
    if k == z3.Z3_OP_EXTRACT:
        h, l = e.params()
        return '(extract %d %d %s)' % (h, l, to_sexpr(ch[0]))
    if k == z3.Z3_OP_ZERO_EXT:
        return '(zext %d %s)' % (e.size(), to_sexpr(ch[0]))
    if k == z3.Z3_OP_SIGN_EXT:
        return '(sext %d %s)' % (e.size(), to_sexpr(ch[0]))
    if k == z3.Z3_OP_ITE:
        return '(ite %s %s %s)' % tuple(to_sexpr(c) for c in ch)
    if k in (z3.Z3_OP_NOT, z3.Z3_OP_BNOT):
        return '(not %s)' % to_sexpr(ch[0])
    if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
        return '(not (eq %s %s))' % tuple(to_sexpr(c) for c in ch)
    if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ):
        o = {z3.Z3_OP_ULT: 'ult', z3.Z3_OP_ULEQ: 'ule', z3.Z3_OP_SLT: 'slt', z3.Z3_OP_SLEQ: 'sle'}[k]
        return '(%s %s %s)' % (o, to_sexpr(ch[0]), to_sexpr(ch[1]))
    if k in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
        o = {z3.Z3_OP_UGT: 'ult', z3.Z3_OP_UGEQ: 'ule', z3.Z3_OP_SGT: 'slt', z3.Z3_OP_SGEQ: 'sle'}[k]
        return '(%s %s %s)' % (o, to_sexpr(ch[1]), to_sexpr(ch[0]))
    if k == z3.Z3_OP_IMPLIES:
        return '(or (not %s) %s)' % (to_sexpr(ch[0]), to_sexpr(ch[1]))
    if k == z3.Z3_OP_BNEG:
        return '(sub (bv 0 %d) %s)' % (e.size(), to_sexpr(ch[0]))
    if k in _K:
        return '(%s %s)' % (_K[k], ' '.join(to_sexpr(c) for c in ch))
    raise ValueError('cannot translate %s' % e)


def nodes_to_z3(nodes, wants=None):
    """record node list -> {id: z3 bit-vector}"""
    m = {}
    for n in nodes:
        i, op, w = n[0], n[1], n[2]
        a = [m.get(x) if isinstance(x, int) else x for x in n[3:6]]
        if op == 'const': r = z3.BitVecVal(n[3], w)
        elif op == 'var': r = z3.BitVec(n[3], w)
        elif op == 'extract': r = z3.Extract(n[4] + w - 1, n[4], a[0])
        elif op == 'zext': r = z3.ZeroExt(w - a[0].size(), a[0])
        elif op == 'sext': r = z3.SignExt(w - a[0].size(), a[0])
        elif op == 'ite': r = z3.If(a[0] == 1, a[1], a[2])
        elif op == 'add': r = a[0] + a[1]
        elif op == 'sub': r = a[0] - a[1]
        elif op == 'mul': r = a[0] * a[1]
        elif op == 'udiv': r = z3.UDiv(a[0], a[1])
        elif op == 'urem': r = z3.URem(a[0], a[1])
        elif op == 'sdiv': r = a[0] / a[1]
        elif op == 'srem': r = z3.SRem(a[0], a[1])
        elif op == 'and': r = a[0] & a[1]
        elif op == 'or': r = a[0] | a[1]
        elif op == 'xor': r = a[0] ^ a[1]
        elif op == 'shl': r = a[0] << a[1]
        elif op == 'lshr': r = z3.LShR(a[0], a[1])
        elif op == 'ashr': r = a[0] >> a[1]
        elif op == 'concat': r = z3.Concat(a[0], a[1])
        elif op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            c = {'eq': lambda: a[0] == a[1], 'ult': lambda: z3.ULT(a[0], a[1]), 'ule': lambda: z3.ULE(a[0], a[1]),
                 'slt': lambda: a[0] < a[1], 'sle': lambda: a[0] <= a[1]}[op]()
            r = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            raise ValueError(op)
        m[i] = r
    return m


def subst(content, model):
    """concrete bytes of a content list under {varname: int}"""
    out = bytearray()
    for x in content:
        out.append(x if isinstance(x, int) else val(x, model))
    return bytes(out)


def val(e, model):
    if isinstance(e, int):
        return e
    if isinstance(e, bool):
        return int(e)
    vs = free(e)
    r = z3.simplify(z3.substitute(e, *[(v, z3.BitVecVal(model.get(str(v), 0), v.size())) for v in vs]))
    if z3.is_bool(r):
        return 1 if z3.is_true(r) else 0
    return r.as_long()


def free(e, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if e.get_id() in seen:
        return out
    seen.add(e.get_id())
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        out.append(e)
    for c in e.children():
        free(c, seen, out)
    return out
