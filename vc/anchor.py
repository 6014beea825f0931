"""Contracts assumed on anchor-lang, solana-program and spl-token (not verified here; listed in evidence).

Accounts are symbolic objects: Op("ai", id) stands for every view of the account `id` (AccountInfo,
Signer, UncheckedAccount, AccountLoader<T>, Program, ...).  Its zero-copy data lives in the memory
object ("data:<id>:<Type>").  Token balances live in ghost state ("bal:<id>"); a deserialised
Account<TokenAccount> keeps its own snapshot until reload().  Program derived addresses are
uninterpreted functions of their seeds.  A failing call returns Err/None on a separate path.
"""
import re
import z3
import models
from models import ok, err, some, none, unit, arg_val, FIELD_HOOKS, DEREF_HOOKS, SYM_HOOKS, MAT_HOOKS, LEN_HOOKS, DISCR_HOOKS, PUT_HOOKS
from dom import Unsupported, is_true, is_false
import sym
from sym import Agg, Ptr, Op, norm

PID = 0x5EED  # program id stand-in when no constant is available


def K(E, what, id):
    """an attribute of an account as an SMT constant"""
    k = (what, id)
    c = E.attrs.get(k)
    if c is None:
        n = "%s:%s" % (what, id)
        if what in ("signer", "writable", "executable"):
            c = z3.Bool(n)
        elif what in ("lamports", "rent_epoch", "datalen") or what.startswith("bal"):
            c, cs = E.d.fresh(n, 64, False)
            E.assumptions_global += cs
        else:
            c = z3.Int(n)
        E.attrs[k] = c
    return c


def new_acct(E, id):
    return Op("ai", id)


def acct_id(E, st, v):
    v = arg_val(E, st, v)
    if isinstance(v, Op) and v.t in ("ai", "acct"):
        return v.a[0]
    if isinstance(v, Op) and v.t in ("box",):
        return acct_id(E, st, v.a[0])
    raise Unsupported("account expected, got %r" % (v,))


def data_obj(E, id, ti):
    t = E.m.T(ti)
    return "data:%s:%s" % (id, t["path"].rsplit("::", 1)[-1])


def init_data(E, o, ti=None):
    """initial (pre-state) value of a data object; the same in every state of this executor"""
    if o not in E.init:
        ti = ti if ti is not None else E.data_ty[o]
        s = sym.State()
        E.init[o] = E.sym(ti, o, s)
        E.assumptions_global += list(s.pc)
    return E.init[o]


def mat(E, st, o):
    if isinstance(o, str) and o in E.data_ty:
        st.mem[o] = init_data(E, o)
        return True
    return False


def zero_of(E, ti):
    m = E.m
    it = m.int_ty(ti)
    if it:
        return E.d.const(0, it[0], it[1])
    t = m.T(ti)
    if t["k"] == "bool":
        return z3.BoolVal(False)
    if m.is_pubkey(ti):
        return z3.IntVal(0)
    if t["k"] == "adt" and t["adt"].lower().startswith("struct"):
        return Agg([zero_of(E, ft) for _, ft in t["variants"][0]["fields"]])
    if t["k"] == "array":
        if t["len"] > 64:
            return Op("bigarray", "zero")
        return Agg([zero_of(E, t["elem"])] * t["len"])
    if t["k"] == "tuple":
        return Agg([zero_of(E, x) for x in t["elems"]])
    raise Unsupported("zero of " + t["name"])


def bal(E, st, id):
    k = "bal:" + id
    if k not in st.gh:
        n = st.gh.get("havoc", 0)
        st.gh[k] = K(E, "bal0" if not n else "bal%d'" % n, id)
    return st.gh[k]


LDR = re.compile(r"AccountLoader::<(.*)>::(load|load_mut|load_init|try_from|try_from_unchecked)$")


def data_type(E, fn, tname):
    for ti in fn.get("gargs", []):
        t = E.m.T(ti) if isinstance(ti, int) else None
        if t and t["k"] == "adt":
            return ti
    raise Unsupported("loader type " + tname)


def loader(E, st, fn, args, depth):
    n = norm(fn["name"])
    mm = LDR.search(n)
    if not mm:
        return NotImplemented
    tname, meth = mm.group(1).rsplit("::", 1)[-1], mm.group(2)
    E.assumed.add("anchor AccountLoader::%s" % meth)
    if meth in ("try_from", "try_from_unchecked"):
        i = 0 if meth == "try_from" else len(args) - 1
        id = acct_id(E, st, args[i])
        s2 = st.fork()
        if meth == "try_from":
            typed(E, st, id, tname)
            if ("init:" + id) not in st.gh:
                E.assumed.add("AccountLoader::try_from fails only for another owner or discriminator (distinct accounts: no conflicting borrow)")
                s2.add(z3.Not(z3.And(K(E, "disc", id) == DISC[tname], K(E, "owner", id) == program_id(E))))
        return [(st, ok(E, Op("ai", id))), (s2, err(E, "AccountLoader::try_from"))]
    id = acct_id(E, st, args[0])
    o = data_obj(E, id, data_type(E, fn, tname))
    ti = data_type(E, fn, tname)
    E.data_ty[o] = ti
    if meth == "load_init":
        s2 = st.fork()
        st.mem[o] = zero_of(E, ti)
        st.gh["init:" + id] = tname
        st.ev("load_init", id, tname)
        if "cnt:load_init" in st.gh: st.gh["cnt:load_init"] = st.gh["cnt:load_init"] + 1
        return [(st, ok(E, Op("refmut", Ptr(o)))), (s2, err(E, "load_init"))]
    if o not in st.mem:
        st.mem[o] = init_data(E, o, ti)
        for c in getattr(E, "data_inv", {}).get(tname, lambda e, i, v: [])(E, id, st.mem[o]): st.add(c)
    s2 = st.fork()
    if meth == "load_mut":
        st.add(K(E, "writable", id))
    typed(E, st, id, tname)
    st.gh["loaded:" + id] = tname
    return [(st, ok(E, Op("refmut", Ptr(o)))), (s2, err(E, "AccountLoader::load"))]


DISC = {}


def typed(E, st, id, tname):
    if ("init:" + id) in st.gh:
        return
    n = DISC.setdefault(tname, len(DISC) + 1)
    st.add(K(E, "disc", id) == n, K(E, "owner", id) == program_id(E))


def program_id(E):
    return E.pid


def m_key(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t in ("ai", "acct"):
        return [(st, K(E, "key", v.a[0]))]
    if isinstance(v, z3.ExprRef):
        return [(st, v)]
    return NotImplemented


def m_ai(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t in ("ai", "acct"):
        return [(st, ai_val(E, st, v))]
    return NotImplemented


def ai_val(E, st, v):
    """the account handle itself, with its overridden flags"""
    v = arg_val(E, st, v)
    if isinstance(v, Op) and v.t == "ai":
        return v
    return Op("ai", acct_id(E, st, v))


def m_signer_try(E, st, fn, args, depth):
    v = ai_val(E, st, args[0])
    sg = dict(v.a[1:]).get("signer", K(E, "signer", v.a[0]))
    E.assumed.add("anchor Signer::try_from succeeds only for a signing account")
    s2 = st.fork()
    st.add(sg)
    return [(st, ok(E, v)), (s2, err(E, "Signer::try_from"))]


def m_clone(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "ai":
        return [(st, v)]
    if isinstance(v, Op) and v.t == "acct":
        o = E.new("cache:" + v.a[0])
        st.mem[o] = st.mem[v.a[1]]
        r = Op("acct", v.a[0], o)
        if "boxed::Box<" in fn["name"].split(" as ")[0]:
            b = E.new("box")
            st.mem[b] = r
            return [(st, Ptr(b))]
        return [(st, r)]
    return NotImplemented


def m_ref_deref(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "refmut":
        return [(st, v.a[0])]
    return NotImplemented


def m_acct_deref(E, st, fn, args, depth):
    """Deref of Account<T> / TokenAccount / Mint / Signer / UncheckedAccount ..."""
    a = args[0]
    v = a
    while isinstance(v, Ptr):
        nv = E.load(st, v)
        if isinstance(nv, Agg):
            return [(st, v)]           # already points to the deserialised struct
        v = nv
    if isinstance(v, Op) and v.t == "acct":
        return [(st, Ptr(v.a[1]))]
    if isinstance(v, Op) and v.t == "ai":
        return [(st, v)]
    return NotImplemented


def mk_token(E, st, id, kind, ti):
    """deserialised spl account"""
    o = E.new("cache:" + id)
    key = "spl:%s:%s" % (id, kind)
    if key not in E.init:
        s = sym.State()
        E.init[key] = E.sym(ti, key, s)
        E.assumptions_global += list(s.pc)
    v = E.init[key]
    if kind == "TokenAccount":
        f = list(v.f)
        f[2] = bal(E, st, id)
        v = Agg(f)
    st.mem[o] = v
    return Op("acct", id, o)


def spl_ty(E, kind):
    for i, t in enumerate(E.m.types):
        if t["k"] == "adt" and t["path"] == "spl_token::state::" + ("Account" if kind == "TokenAccount" else "Mint"):
            return i
    raise Unsupported("spl type")


def acct_try(E, st, id, kind):
    a = mk_token(E, st, id, kind, spl_ty(E, kind))
    st.add(K(E, "owner", id) == E.token_pid)
    st.add(K(E, "spltype", id) == (1 if kind == "TokenAccount" else 2))
    return a


ACC = re.compile(r"Account::<anchor_spl::token::(TokenAccount|Mint)>::(try_from|try_from_unchecked|reload|exit|into_inner|set_inner)$")


def m_account(E, st, fn, args, depth):
    mm = ACC.search(norm(fn["name"]))
    kind, meth = mm.groups()
    E.assumed.add("anchor Account<%s>::%s" % (kind, meth))
    if meth.startswith("try_from"):
        id = acct_id(E, st, args[0])
        s2 = st.fork()
        a = acct_try(E, st, id, kind)
        return [(st, ok(E, a)), (s2, err(E, "Account::try_from"))]
    if meth == "reload":
        v = arg_val(E, st, args[0])
        s2 = st.fork()
        if kind == "TokenAccount":
            f = list(st.mem[v.a[1]].f)
            f[2] = bal(E, st, v.a[0])
            st.mem[v.a[1]] = Agg(f)
        return [(st, ok(E, unit())), (s2, err(E, "reload"))]
    return NotImplemented


TRY = re.compile(r"as anchor_lang::Accounts>::try_accounts$|<impl anchor_lang::Accounts for .*>::try_accounts$")


def m_try_accounts(E, st, fn, args, depth):
    n = norm(fn["name"])
    if "cyclos_core::context::" in n:
        return NotImplemented
    mm = re.search(r"<([\w:<>& ]+) as anchor_lang::Accounts>|anchor_lang::Accounts for (.*)>::try_accounts", n)
    ty = mm.group(1) or mm.group(2)
    # arguments: program_id, accounts: &mut &[AccountInfo], ix_data, bumps
    av = E.load(st, args[1])
    if not (isinstance(av, Op) and av.t == "accts"):
        raise Unsupported("try_accounts on %r" % (av,))
    c = av.a[0]
    id = acct_name(E, c)
    E.store(st, args[1], Op("accts", c + 1))
    E.assumed.add("anchor try_accounts of %s" % re.sub(r"\w+::", "", ty))
    s2 = st.fork()
    v = Op("ai", id)
    if ty.endswith("Signer"):
        st.add(K(E, "signer", id))
    elif ty.endswith("AccountInfo") or ty.endswith("UncheckedAccount"):
        pass
    elif "AccountLoader<" in ty:
        typed(E, st, id, re.search(r"AccountLoader<(.*)>", ty).group(1).rsplit("::", 1)[-1])
    elif "Account<anchor_spl::token::" in ty:
        kind = re.search(r"token::(\w+)>", ty).group(1)
        v = acct_try(E, st, id, kind)
        if "Box<" in ty:
            b = E.new("box")
            st.mem[b] = v
            v = Ptr(b)
    elif "Program<" in ty:
        p = re.search(r"Program<(.*)>", ty).group(1).rsplit("::", 1)[-1]
        key = {"CyclosCore": program_id(E), "Token": E.token_pid}.get(p)
        if key is None:
            key = z3.IntVal(0xF000 + sum(map(ord, p)))
        st.add(K(E, "key", id) == key)
    elif "Sysvar<" in ty:
        pass
    else:
        raise Unsupported("try_accounts of " + ty)
    return [(st, ok(E, v)), (s2, err(E, "try_accounts " + id))]


# ------------------------------------------------------------------ keys and seeds
def seed_parts(E, st, v):
    """flatten a slice/array of byte slices into [(tag, term-or-None)]"""
    v0 = v
    while isinstance(v, Ptr):
        v = E.load(st, v)
    if isinstance(v, Agg):
        out = []
        for x in v.f:
            out += seed_parts(E, st, x)
        return out
    if isinstance(v, z3.ExprRef):
        # a u8 element or a pubkey; pubkeys are Int terms without range
        return [("key", v)]
    if isinstance(v, Op) and v.t == "bytes":
        if v.a[0] == "lit":
            return [("lit:" + v.a[1].hex(), None)]
        return [(str(v.a[0]), v.a[1])]
    if isinstance(v, Op) and v.t == "str" and v.a[0] == "lit":
        s = v.a[1]
        return [("lit:" + (s.encode() if isinstance(s, str) else bytes(s)).hex(), None)]
    raise Unsupported("seed %r" % (v,))


def uf(E, name, args):
    f = z3.Function(name, *([z3.IntSort()] * len(args) + [z3.IntSort()]))
    return f(*args)


def pda(E, parts):
    """address derived from seed parts (program id fixed)"""
    parts = [("key" if t == "u8" else t, x) for t, x in parts]      # one byte or a whole key: both are passed as they are
    shape = "|".join(t for t, _ in parts)
    args = [x for _, x in parts if x is not None]
    if not args:
        k = z3.Int("pda[%s]" % shape)
    else:
        k = uf(E, "pda[%s]" % shape, args)
    E.pdas[k.get_id()] = (k, parts)
    return k


def m_create_pda(E, st, fn, args, depth):
    parts = seed_parts(E, st, args[0])
    E.assumed.add("Pubkey::create_program_address is a function of its seeds (collisions excluded)")
    st2 = st.fork()
    pid = arg_val(E, st, args[1])
    if not (isinstance(pid, z3.ExprRef) and pid.eq(program_id(E))):
        parts = parts + [("program", pid)]
    return [(st, ok(E, pda(E, parts))), (st2, err(E, "PubkeyError"))]


def m_find_pda(E, st, fn, args, depth):
    parts = seed_parts(E, st, args[0])
    E.assumed.add("Pubkey::find_program_address = create_program_address with the canonical bump")
    pid = arg_val(E, st, args[1])
    if not (isinstance(pid, z3.ExprRef) and pid.eq(program_id(E))):
        parts = parts + [("program", pid)]
    shape = "|".join(t for t, _ in parts)
    a = [x for _, x in parts if x is not None]
    b = uf(E, "bump[%s]" % shape, a) if a else z3.Int("bump[%s]" % shape)
    E.d.ranges[b.decl().name()] = (0, 255)
    st.add(b >= 0, b <= 255)
    return [(st, Agg([pda(E, parts + [("key", b)]), b]))]


def m_ata(E, st, fn, args, depth):
    E.assumed.add("get_associated_token_address is a function of wallet and mint")
    return [(st, uf(E, "ata", [arg_val(E, st, args[0]), arg_val(E, st, args[1])]))]


def m_pk_eq(E, st, fn, args, depth):
    a, b = arg_val(E, st, args[0]), arg_val(E, st, args[1])
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        e = sym.simp(a == b)
        return [(st, e if norm(fn["name"]).endswith("::eq") else sym.simp(z3.Not(e)))]
    return NotImplemented


def m_pk_lt(E, st, fn, args, depth):
    a, b = arg_val(E, st, args[0]), arg_val(E, st, args[1])
    n = norm(fn["name"])
    if n.endswith("::partial_cmp") or n.endswith("::cmp"):
        r = Op("ordering", a, b, 256, False)
        return [(st, some(r) if n.endswith("partial_cmp") else r)]
    op = n.rsplit("::", 1)[-1]
    E.assumed.add("Pubkey order is a total order")
    return [(st, {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])]


def m_pk_bytes(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, z3.ExprRef):
        return [(st, Op("bytes", "key", v))]
    return NotImplemented


def m_pk_default(E, st, fn, args, depth):
    return [(st, z3.IntVal(0))]


def m_pk_clone(E, st, fn, args, depth):
    return [(st, arg_val(E, st, args[0]))]


def m_str_bytes(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    return [(st, v)]


def m_index_full(E, st, fn, args, depth):
    a = args[0]
    if isinstance(a, Ptr) and a.m is None:
        v = E.load(st, a)
        if isinstance(v, Agg):
            return [(st, Ptr(a.o, a.p, len(v.f)))]
    return [(st, a)]


def acct_name(E, i):
    """name of the i-th account of the instruction: context field, then remaining accounts"""
    n = len(E.acct_names)
    return E.acct_names[i] if i < n else "rem%d" % (i - n)


def accts_len(E, v):
    k = "accts.len"
    if k not in E.init:
        c, cs = E.d.fresh("accounts.len", 64, False)
        E.assumptions_global += cs + [c <= 256]
        E.d.ranges["accounts.len"] = (0, 256)
        E.init[k] = c
    if isinstance(v.a[0], int):
        x, cs = E.d.fresh("accounts.len-%d" % v.a[0], 64, False)
        if k + str(v.a[0]) not in E.init:
            E.init[k + str(v.a[0])] = x
            E.assumptions_global += cs + [z3.If(E.init[k] >= v.a[0], x == E.init[k] - v.a[0], x == 0)]
        return x
    x = E.fresh_int("nrem", 64, False)
    return x


def m_index_from(E, st, fn, args, depth):
    """&accounts[k..]"""
    v = arg_val(E, st, args[0])
    if not (isinstance(v, Op) and v.t == "accts"):
        return NotImplemented
    k = E.d.val(args[1].f[0]) if isinstance(args[1], Agg) and len(args[1].f) else None
    if k is None or not isinstance(v.a[0], int):
        return [(st, Op("accts", "*"))]
    return [(st, Op("accts", v.a[0] + k))]


def m_bumps_get(E, st, fn, args, depth):
    k = arg_val(E, st, args[1])
    name = k.a[1] if isinstance(k, Op) and k.t == "str" and k.a[0] == "lit" else "?"
    key = "bumpval:" + str(name)
    v = st.gh.get(key)
    if v is None:
        if key not in E.init:
            c, cs = E.d.fresh(key, 8, False)
            E.assumptions_global += cs
            E.init[key] = c
        v = E.init[key]
    o = E.new("bump")
    st.mem[o] = v
    if norm(fn["name"]).endswith("index"):
        return [(st, Ptr(o))]
    return [(st, some(Ptr(o)))]


def m_bumps_insert(E, st, fn, args, depth):
    k = arg_val(E, st, args[1])
    if isinstance(k, Op) and k.t == "str" and k.a[0] == "lit" and isinstance(args[2], z3.ExprRef):
        st.gh["bumpval:" + str(k.a[1])] = args[2]
    return [(st, Op("opaque", "option"))]


def m_vecu8(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "ixdata": return [(st, v)]
    return NotImplemented


def m_to_string(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "str": return [(st, v)]
    return [(st, Op("opaque", "string"))]


# ------------------------------------------------------------------ CPI
def cpi_acct(E, st, v):
    return acct_id(E, st, v)


def m_cpictx(E, st, fn, args, depth):
    # (program, accounts[, signer_seeds])
    return [(st, Op("cpi", args[0], args[1], args[2] if len(args) > 2 else None))]


def cpi_accounts(E, st, cpi):
    a = cpi.a[1]
    return [acct_id(E, st, x) for x in a.f]


def cpi_seeds(E, st, cpi):
    if cpi.a[2] is None:
        return None
    try:
        return tuple((t, x) for t, x in seed_parts(E, st, cpi.a[2]))
    except Unsupported:
        return ()


def m_transfer(E, st, fn, args, depth):
    cpi, amount = args[0], args[1]
    if not (isinstance(cpi, Op) and cpi.t == "cpi"):
        return NotImplemented
    frm, to, auth = cpi_accounts(E, st, cpi)
    seeds = cpi_seeds(E, st, cpi)
    prog = acct_id(E, st, cpi.a[0]) if cpi.a[0] is not None else None
    E.assumed.add("spl-token transfer moves exactly `amount` (Err if the source lacks it or the authority did not sign)")
    s2 = st.fork()
    b0, b1 = bal(E, st, frm), bal(E, st, to)
    st.add(b0 >= amount)
    if frm != to:
        st.gh["bal:" + frm] = b0 - amount
        st.gh["bal:" + to] = b1 + amount
        st.add(b1 + amount <= (1 << 64) - 1)
        for k in (frm, to):
            x = E.fresh_int("bal:" + k, 64, False, st)
            st.add(x == st.gh["bal:" + k])
            st.gh["bal:" + k] = x
    st.ev("transfer", frm, to, auth, amount, seeds, prog, snapshot(st))
    return [(st, ok(E, unit())), (s2, err(E, "transfer"))]


def snapshot(st):
    return SnapRef({k: v for k, v in st.mem.items() if isinstance(k, str) and k.startswith("data:")}, dict(st.gh), st.pc)


class SnapRef:
    """memory snapshot carried by an event (not part of the event's identity)"""
    __slots__ = ("mem", "gh", "pc")

    def __init__(self, mem, gh, pc):
        self.mem, self.gh, self.pc = mem, gh, pc

    def __eq__(self, o):
        return isinstance(o, SnapRef)

    def __hash__(self):
        return 1


def m_spl_other(E, st, fn, args, depth):
    n = norm(fn["name"])
    op = n.rsplit("::", 1)[-1]
    cpi = args[0]
    s2 = st.fork()
    accts = ()
    seeds = None
    if isinstance(cpi, Op) and cpi.t == "cpi":
        try:
            accts = tuple(cpi_accounts(E, st, cpi))
        except Unsupported:
            accts = ()
        seeds = cpi_seeds(E, st, cpi)
    rest = tuple(args[1:])
    E.assumed.add("spl " + op)
    if op == "mint_to":
        mint, to = accts[0], accts[1]
        b = bal(E, st, to)
        st.gh["bal:" + to] = b + rest[0]
    st.ev("spl", op, accts, rest, seeds, snapshot(st))
    return [(st, ok(E, unit())), (s2, err(E, op))]


def m_ix_new(E, st, fn, args, depth):
    return [(st, Op("ix", "bytes", args[0], args[1], arg_val(E, st, args[2])))]


def m_sys_ix(E, st, fn, args, depth):
    return [(st, Op("ix", "system", norm(fn["name"]).rsplit("::", 1)[-1], tuple(args)))]


def m_ix_other(E, st, fn, args, depth):
    return [(st, Op("ix", "other", norm(fn["name"]), tuple(args)))]


def m_metas(E, st, fn, args, depth):
    """to_account_metas of an accounts struct: its accounts in order"""
    v = arg_val(E, st, args[0])
    if not isinstance(v, Agg):
        return NotImplemented
    try:
        return [(st, Op("metas", *[acct_id(E, st, x) for x in v.f]))]
    except Unsupported:
        return NotImplemented


# callbacks of this program and the accounts whose token balances they may change (their contracts, proved in C13)
CALLBACKS = {"SwapCallback": ("input_token_account", "input_vault"), "MintCallback": ("token_account_0", "token_account_1", "vault_0", "vault_1")}


def own_callback(E, st, ix):
    """ids of the accounts a call of one of this program's own callbacks may debit or credit, else None"""
    if not (ix.a[0] == "bytes" and len(ix.a) > 3 and isinstance(ix.a[2], Op) and ix.a[2].t == "ixdata" and ix.a[2].a[0] in CALLBACKS
            and isinstance(ix.a[3], Op) and ix.a[3].t == "metas" and isinstance(ix.a[1], z3.ExprRef)):
        return None
    if E.feasible(st, ix.a[1] != E.pid):
        return None
    name = ix.a[2].a[0]
    ts = [t for t in E.m.types if t["k"] == "adt" and t["path"].endswith("context::" + name)]
    if not ts: return None
    fs = [n for n, _ in ts[0]["variants"][0]["fields"]]
    if not set(CALLBACKS[name]) <= set(fs): return None
    E.used_contracts.add("instruction %s (see C13)" % name)
    ai = [i for i, t in enumerate(E.m.types) if t["k"] == "adt" and t["path"].endswith("::instruction::" + name)]
    v = ix.a[2].a[1]
    ids = {n: ix.a[3].a[fs.index(n)] for n in CALLBACKS[name]}
    if len(set(ids.values())) != len(ids) or not ai or not isinstance(v, Agg): return None
    arg = dict(zip([n for n, _ in E.m.T(ai[0])["variants"][0]["fields"]], v.f))
    # the contract of the callback: what is owed moves from the payer's account to the vault
    out = {}
    if name == "MintCallback":
        for i in "01":
            o = arg.get("amount_%s_owed" % i)
            if o is None: return None
            out[ids["vault_" + i]] = lambda a, b, o=o: b == a + o
            out[ids["token_account_" + i]] = lambda a, b, o=o: b == a - o
    else:
        out[ids["input_vault"]] = lambda a, b: b >= a
        out[ids["input_token_account"]] = lambda a, b: b <= a
    return out


def m_invoke(E, st, fn, args, depth):
    ix = arg_val(E, st, args[0])
    if isinstance(ix, Agg):
        # an Instruction written as a struct: program_id, accounts, data
        t = [t for t in E.m.types if t["k"] == "adt" and t["path"].endswith("instruction::Instruction")]
        names = [n for n, _ in t[0]["variants"][0]["fields"]] if t else []
        if len(ix.f) != 3 or set(names) != {"program_id", "accounts", "data"}: raise Unsupported("an instruction of unknown layout")
        g = dict(zip(names, ix.f))
        ix = Op("ix", "bytes", g["program_id"], g["data"], g["accounts"])
    s2 = st.fork()
    E.assumed.add("invoke: the callee may change any token balance, not this program's accounts of a locked pool")
    if isinstance(ix, Op) and ix.t == "ix" and ix.a[0] == "system":
        pass        # account creation and rent: no effect on program data
    elif isinstance(ix, Op) and ix.t == "ix" and ix.a[0] == "other":
        st.ev("invoke_other", ix.a[1])
    else:
        st.ev("invoke", ix, snapshot(st))
        for k in list(E.attrs):
            if k[0] == "bal0":
                bal(E, st, k[1])
        mine = own_callback(E, st, ix)
        for k in list(st.gh):
            if k.startswith("bal:") and (mine is None or k[4:] in mine):
                old = st.gh[k]
                st.gh[k] = E.fresh_int(k + "'", 64, False, st)
                if mine is not None: st.add(mine[k[4:]](old, st.gh[k]))
        if mine is None: st.gh["havoc"] = st.gh.get("havoc", 0) + 1
    return [(st, ok(E, unit())), (s2, err(E, "invoke"))]


def m_event(E, st, fn, args, depth):
    n = norm(fn["name"])
    v = arg_val(E, st, args[0])
    name = re.search(r"<(.*) as", n).group(1).rsplit("::", 1)[-1]
    if "as anchor_lang::Event>" in n:
        st.ev("emit", name, v if isinstance(v, Agg) else None)
        return [(st, Op("bytes", "event", None))]
    return [(st, Op("ixdata", name, v))]


def clock(E):
    if "clock" not in E.init:
        c, cs = E.d.fresh("clock.unix_timestamp", 64, True)
        E.assumptions_global += cs
        E.assumptions_global.append(c >= 0)
        E.init["clock"] = c
    return E.init["clock"]


def m_clock(E, st, fn, args, depth):
    clock(E)
    E.assumed.add("Clock::get succeeds with one non-negative unix_timestamp per transaction")
    f = [E.d.const(0, 64)] * 4 + [E.init["clock"]]
    o = [Op("opaque", "clock")] * 4 + [E.init["clock"]]
    return [(st, ok(E, Agg(o)))]


def m_rent_get(E, st, fn, args, depth):
    return [(st, ok(E, Op("rent"))), (st.fork(), err(E))]


def m_fresh_u64(E, st, fn, args, depth):
    return [(st, E.fresh_int("ext", 64, False, st))]


def m_lamports(E, st, fn, args, depth):
    E.assumed.add("anchor init of a pre-funded address (transfer, allocate, assign) has the effect of create_account")
    return [(st, E.d.const(0, 64))]


def m_fresh_bool(E, st, fn, args, depth):
    return [(st, E.fresh_bool("ext"))]


def m_ok_fresh(E, st, fn, args, depth):
    return [(st, ok(E, E.fresh_int("ext", 64, False, st))), (st.fork(), err(E))]


def m_ok_unit(E, st, fn, args, depth):
    return [(st, ok(E, unit())), (st.fork(), err(E))]


def m_opaque_any(E, st, fn, args, depth):
    ot = E.m.T(fn["out"]) if "out" in fn else None
    if ot and ot["k"] == "tuple" and not ot["elems"]:
        return [(st, unit())]
    return [(st, Op("opaque", norm(fn["name"])[:60]))]


def m_deserialize(E, st, fn, args, depth):
    """AnchorDeserialize of instruction arguments: any value of the type, or Err"""
    ot = E.m.T(fn["out"])
    ti = ot["variants"][0]["fields"][0][1]
    key = "args:" + norm(E.m.T(ti)["name"]).rsplit("::", 1)[-1]
    if key == "args:__Args":
        # same bytes as the instruction arguments: reuse by field name
        v = Agg([ix_arg(E, n, ft) for n, ft in E.m.T(ti)["variants"][0]["fields"]])
    elif E.m.T(ti)["k"] == "adt" and E.m.T(ti)["adt"].lower().startswith("struct"):
        v = Agg([ix_arg(E, n, ft) for n, ft in E.m.T(ti)["variants"][0]["fields"]])
    else:
        return NotImplemented
    s2 = st.fork()
    return [(st, ok(E, v)), (s2, err(E, "deserialize"))]


def ix_arg(E, name, ti):
    k = "arg." + name.lstrip("_")
    if k not in E.init:
        s = sym.State()
        E.init[k] = E.sym(ti, k, s)
        E.assumptions_global += list(s.pc)
    return E.init[k]


def m_vec_len(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "vec":
        return [(st, v.a[1])]
    return NotImplemented


def m_vec_index(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if not (isinstance(v, Op) and v.t == "vec" and isinstance(args[1], z3.ExprRef)):
        return NotImplemented
    i = args[1]
    inb = z3.And(i >= 0, i < v.a[1])
    E.panic(st.fork().add(z3.Not(inb)), "index out of bounds")
    st.add(inb)
    bits, sg = E.m.int_ty(v.a[2])
    x = z3.Function("elem:" + v.a[0], z3.IntSort(), z3.IntSort())(i)
    lo, hi = E.d.bounds(bits, sg)
    st.add(x >= lo, x <= hi)
    o = E.new("elem")
    st.mem[o] = x
    return [(st, Ptr(o))]


def m_iter_next(E, st, fn, args, depth):
    """slice::Iter<AccountInfo>::next over remaining accounts: any account, or None"""
    p = args[0]
    v = E.load(st, p)
    if not (isinstance(v, Op) and v.t == "acctiter"):
        return NotImplemented
    st2 = st.fork()
    k = v.a[0]
    if isinstance(k, int):
        id = acct_name(E, k)
        st.add(accts_len(E, Op("accts", k)) > 0)
        st2.add(accts_len(E, Op("accts", k)) == 0)
        E.store(st, p, Op("acctiter", k + 1))
    else:
        id = E.new("rem*")
    o = E.new("remref")
    st.mem[o] = Op("ai", id)
    st.gh["rem"] = st.gh.get("rem", ()) + (id,)
    return [(st, some(Ptr(o))), (st2, none())]


def m_slice_iter(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "accts":
        return [(st, Op("acctiter", v.a[0]))]
    return NotImplemented


def m_as_slice(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "acctiter":
        return [(st, Op("accts", v.a[0]))]
    return NotImplemented


def m_slice_len(E, st, fn, args, depth):
    v = arg_val(E, st, args[0])
    if isinstance(v, Op) and v.t == "accts":
        n = norm(fn["name"])
        if n.endswith("is_empty"):
            return [(st, accts_len(E, v) == 0)]
        return [(st, accts_len(E, v))]
    return NotImplemented


def m_slice_index(E, st, fn, args, depth):
    """remaining_accounts[i] / [i..] / get / first"""
    v = arg_val(E, st, args[0])
    if not (isinstance(v, Op) and v.t == "accts"):
        return NotImplemented
    n = norm(fn["name"])
    if "RangeFull" in n:
        return [(st, v)]
    if "RangeFrom" in n or "Range" in n:
        return [(st, Op("accts", "*"))]
    o = E.new("remref")
    i = E.d.val(args[1]) if len(args) > 1 and isinstance(args[1], z3.ExprRef) else (0 if n.endswith("first") else None)
    if i is not None and isinstance(v.a[0], int):
        i += v.a[0]
        inb = accts_len(E, Op("accts", i)) > 0
        id = acct_name(E, i)
    else:
        id = E.new("rem*")
        inb = E.fresh_bool("inb")
    st.mem[o] = Op("ai", id)
    s2 = st.fork().add(z3.Not(inb))
    st.add(inb)
    if n.endswith("::index"):
        E.panic(s2, "index out of bounds")
        return [(st, Ptr(o))]
    return [(st, some(Ptr(o))), (s2, none())]


def m_split_first(E, st, fn, args, depth):
    return NotImplemented


def m_ctx_new(E, st, fn, args, depth):
    # Context::new(program_id, accounts, remaining_accounts, bumps)
    return [(st, Agg(list(args)))]


def m_box_new(E, st, fn, args, depth):
    o = E.new("box")
    st.mem[o] = args[0]
    return [(st, Ptr(o))]


def m_box_uninit(E, st, fn, args, depth):
    o = E.new("box")
    st.mem[o] = sym.UNINIT
    return [(st, Ptr(o))]


def m_exit(E, st, fn, args, depth):
    """AccountsExit: data is already in place for zero-copy accounts"""
    return [(st, ok(E, unit())), (st.fork(), err(E, "exit"))]


def m_close(E, st, fn, args, depth):
    id = acct_id(E, st, args[0])
    st.ev("close", id, acct_id(E, st, args[1]))
    return [(st, ok(E, unit())), (st.fork(), err(E, "close"))]


def m_from_ident(E, st, fn, args, depth):
    n = norm(fn["name"])
    return [(st, args[0])]


def m_default_agg(E, st, fn, args, depth):
    return NotImplemented


# ------------------------------------------------------------------ hooks
AI_FIELDS = {0: "key", 1: "signer", 2: "writable", 3: "lamports_rc", 4: "data_rc", 5: "owner", 6: "executable", 7: "rent_epoch"}


def field_hook(E, st, v, e):
    if v.t == "ai" and e[0] == "f":
        a = AI_FIELDS.get(e[1])
        if a in ("key", "owner"):
            o = "attr:%s:%s" % (a, v.a[0])
            st.mem[o] = K(E, a, v.a[0])
            return Ptr(o)
        for nm, x in v.a[1:]:
            if nm == a:
                return x
        if a in ("signer", "writable", "executable", "rent_epoch"):
            return K(E, a, v.a[0])
        return Op("opaque", a)
    if v.t == "accts" and e[0] == "i":
        i = e[1] if isinstance(e[1], int) else E.d.val(e[1])
        if i is None or not isinstance(v.a[0], int):
            # the account at a symbolic position: one name per index term
            if isinstance(v.a[0], int):
                return Op("ai", E.idx.setdefault((v.a[0], e[1].get_id()), (E.new("rem*"), e[1]))[0])
            return Op("ai", E.new("rem*"))
        return Op("ai", acct_name(E, v.a[0] + i))
    if v.t == "opt" and e[0] == "v":
        return Agg([v.a[1]] if e[1] == 1 else [], e[1])
    if v.t == "opaque" or v.t == "zst":
        return Op("opaque", str(v.a[0])[:40] + "." + str(e[1]) if v.a else "x")
    if v.t == "bytes" and e[0] == "i" and v.a[0] == "lit" and isinstance(e[1], int):
        return E.d.const(v.a[1][e[1]], 8)
    if v.t == "bytes" and v.a[0] == "u8" and e[0] == "i":
        return v.a[1]
    return None


def deref_hook(E, st, v):
    if v.t == "refmut":
        return None
    if v.t in ("ai", "acct", "opaque", "str", "dyn", "bytes", "zst", "accts", "const"):
        return v
    return None


def sym_hook(E, ti, t, name, st, depth):
    p = t["path"]
    b = p.rsplit("::", 1)[-1]
    if b == "COption":
        return Op("opt", E.fresh_bool(name + ".some"), E.sym(t["gargs"][0], name + ".value", st, depth + 1))
    if p.startswith("spl_token::state::AccountState"):
        return Op("opaque", name)
    if b in ("AccountInfo", "Signer", "UncheckedAccount", "AccountLoader", "Program", "Sysvar"):
        return Op("ai", name)
    if b == "Vec" and t.get("gargs") and E.m.int_ty(t["gargs"][0]):
        ln = E.fresh_int(name + ".len", 64, False, st)
        st.add(ln <= 10240)
        E.d.ranges[ln.decl().name()] = (0, 10240)
        return Op("vec", name, ln, t["gargs"][0])
    if b in ("BTreeMap", "Vec", "String"):
        return Op("opaque", name)
    if t["adt"].lower().startswith("struct"):
        return None
    if t["adt"].lower().startswith("enum") and not any(v["fields"] for v in t["variants"]):
        return None
    return None


def len_hook(E, v):
    if v.t == "bytes" and v.a[0] == "lit":
        return E.d.const(len(v.a[1]), 64)
    if v.t == "accts":
        return accts_len(E, v)
    return None


def put_hook(E, st, v, path, new):
    if v.t == "opaque":
        return v
    if v.t == "ai" and len(path) == 1 and path[0][0] == "f" and AI_FIELDS.get(path[0][1]) in ("signer", "writable"):
        a = AI_FIELDS[path[0][1]]
        return Op("ai", v.a[0], *[x for x in v.a[1:] if x[0] != a], (a, new))
    return None


def opt_discr(E, st, v, ti):
    if v.t == "opt":
        return E.d.bool_to_int(v.a[0], 64)
    return None


def static_mat(E, st, o):
    """statics of dependencies: program ids"""
    if isinstance(o, str) and o.startswith("static:") and o.endswith("::ID"):
        st.mem[o] = z3.Int(o)
        return True
    return False


DISCR_HOOKS.append(opt_discr)
MAT_HOOKS.append(static_mat)
FIELD_HOOKS.append(field_hook)
DEREF_HOOKS.append(deref_hook)
SYM_HOOKS.append(sym_hook)
MAT_HOOKS.append(mat)
LEN_HOOKS.append(len_hook)
PUT_HOOKS.append(put_hook)


def find_const_key(E, suffix, dflt):
    """the constant returned by an id() function of the crate"""
    return dflt


def m_pid(E, st, fn, args, depth):
    return [(st, E.pid)]


def m_token_pid(E, st, fn, args, depth):
    return [(st, E.token_pid)]


def m_prog_id(E, st, fn, args, depth):
    n = norm(fn["name"])
    if "CyclosCore" in n:
        return [(st, E.pid)]
    if "Token" in n and "Associated" not in n:
        return [(st, E.token_pid)]
    return [(st, z3.Int("id:" + n))]


def install(E, add):
    E.attrs = {}
    E.idx = {}
    E.init = {}
    E.data_ty = {}
    E.pdas = {}
    E.acct_names = []
    E.pid = z3.Int("PROGRAM_ID")
    E.token_pid = z3.Int("TOKEN_PROGRAM_ID")
    add(LDR.pattern, loader)
    add(ACC.pattern, m_account)
    add(TRY.pattern, m_try_accounts)
    add(r"^cyclos_core::(check_id|ID)$|^cyclos_core::id$", m_pid)
    add(r"as anchor_lang::Id>::id$", m_prog_id)
    add(r"as anchor_lang::Key>::key$", m_key)
    add(r"as anchor_lang::ToAccountInfo>::to_account_info$|as std::convert::AsRef<anchor_lang::prelude::AccountInfo>>::as_ref$", m_ai)
    add(r"^<(anchor_lang::prelude::(AccountInfo|Signer|UncheckedAccount|Program<.*>|Account<.*>|AccountLoader<.*>)|std::boxed::Box<anchor_lang::prelude::Account<.*>>) as std::clone::Clone>::clone$", m_clone)
    add(r"^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", m_ref_deref)
    add(r"^<(anchor_lang::prelude::(Account<.*>|Signer|UncheckedAccount|Program<.*>)|anchor_spl::token::(TokenAccount|Mint)) as std::ops::Deref(Mut)?>::deref(_mut)?$", m_acct_deref)
    add(r"anchor_lang::prelude::Signer( as std::convert::TryFrom<.*>)?>?::try_from$", m_signer_try)
    add(r"^<?anchor_lang::prelude::UncheckedAccount>?::try_from$", lambda E, st, fn, a, d: [(st, ai_val(E, st, a[0]))])
    add(r"Pubkey::create_program_address$", m_create_pda)
    add(r"Pubkey::find_program_address$", m_find_pda)
    add(r"get_associated_token_address$", m_ata)
    add(r"Pubkey as std::cmp::PartialEq>::(eq|ne)$|PartialEq<?.*>? for &anchor_lang::prelude::Pubkey>::(eq|ne)$|PartialEq for &.*Pubkey>::(eq|ne)$", m_pk_eq)
    add(r"Pubkey as std::cmp::(PartialOrd|Ord)>::(lt|le|gt|ge|cmp|partial_cmp)$", m_pk_lt)
    add(r"Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$|Pubkey::to_bytes$", m_pk_bytes)
    add(r"Pubkey as std::default::Default>::default$", m_pk_default)
    add(r"Pubkey as std::clone::Clone>::clone$", m_pk_clone)
    add(r"core::str::<impl str>::as_bytes$|<str as std::convert::AsRef<\[u8\]>>::as_ref$|<\[u8\] as std::convert::AsRef<\[u8\]>>::as_ref$", m_str_bytes)
    add(r"Index<std::ops::RangeFull> for .*>::index$", m_index_full)
    add(r"Index<std::ops::RangeFrom<usize>> for \[anchor_lang::prelude::AccountInfo\]>::index$", m_index_from)
    add(r"BTreeMap::<std::string::String, u8>::get::<str>$|BTreeMap<std::string::String, u8> as std::ops::Index", m_bumps_get)
    add(r"BTreeMap::<std::string::String, u8>::insert$", m_bumps_insert)
    add(r"<str as std::string::ToString>::to_string$", m_to_string)
    add(r"<std::vec::Vec<u8> as std::ops::Deref>::deref$", m_vecu8)
    add(r"BTreeMap::<.*>::new$|BTreeMap<.*> as std::default::Default", m_opaque_any)
    add(r"CpiContext::<.*>::(new|new_with_signer)$", m_cpictx)
    add(r"^anchor_spl::token::transfer$", m_transfer)
    add(r"^anchor_spl::(token|associated_token)::(mint_to|set_authority|burn|initialize_mint|initialize_account|close_account|create|approve|freeze_account)$", m_spl_other)
    add(r"Instruction::new_with_bytes$", m_ix_new)
    add(r"as anchor_lang::ToAccountMetas>::to_account_metas$", m_metas)
    add(r"system_instruction::\w+$", m_sys_ix)
    add(r"^std::boxed::Box::<.*>::new_uninit$", m_box_uninit)
    add(r"^std::boxed::box_assume_init_into_vec_unsafe", m_opaque_any)
    add(r"^(mpl|metaplex)_token_metadata::", m_ix_other)
    add(r"solana_program::program::invoke(_signed)?(_unchecked)?$", m_invoke)
    add(r"as anchor_lang::Event>::data$|as anchor_lang::InstructionData>::data$", m_event)
    add(r"Clock as .*Sysvar>::get$|for .*Clock>::get$", m_clock)
    add(r"Rent as .*Sysvar>::get$|Sysvar for .*Rent>::get$", m_rent_get)
    add(r"AccountInfo::lamports$", m_lamports)
    add(r"AccountInfo::data_len$|Rent::minimum_balance$", m_fresh_u64)
    add(r"Rent::is_exempt$", m_fresh_bool)
    add(r"AccountInfo::(try_data_len|try_lamports)$", m_ok_fresh)
    add(r"AccountInfo::data_is_empty$", m_fresh_bool)
    add(r"as anchor_lang::AnchorDeserialize>::deserialize$|as borsh::BorshDeserialize>::deserialize$", m_deserialize)
    add(r"<std::slice::Iter<anchor_lang::prelude::AccountInfo> as std::iter::Iterator>::next$", m_iter_next)
    add(r"slice::<impl \[anchor_lang::prelude::AccountInfo\]>::iter$|<&\[anchor_lang::prelude::AccountInfo\] as std::iter::IntoIterator>::into_iter$", m_slice_iter)
    add(r"Iter::<anchor_lang::prelude::AccountInfo>::as_slice$", m_as_slice)
    add(r"slice::<impl \[anchor_lang::prelude::AccountInfo\]>::(len|is_empty)$", m_slice_len)
    add(r"slice::<impl \[anchor_lang::prelude::AccountInfo\]>::(get|first)|Index<.*> for \[anchor_lang::prelude::AccountInfo\]>::index$", m_slice_index)
    add(r"context::Context::<.*>::new$", m_ctx_new)
    add(r"^std::boxed::Box::<.*>::new$", m_box_new)
    add(r"<(anchor_lang::prelude::.*|std::boxed::Box<.*>) as anchor_lang::AccountsExit>::exit$|<impl anchor_lang::AccountsExit for .*>::exit$", m_exit)
    add(r"as anchor_lang::AccountsClose>::close$", m_close)
    add(r"^std::vec::Vec::<u\d+>::len$", m_vec_len)
    add(r"^<std::vec::Vec<u\d+> as std::ops::Index<usize>>::index$", m_vec_index)
    # error construction, logging, formatting, heap: no effect on program state
    add(r"ErrorCode::name$|ErrorCode as std::convert::(Into|From)|ErrorCode as std::string::ToString>|for u32>::from$|anchor_lang::error::|^<str as std::string::ToString>|AnchorError|ProgramError|std::io::Error|PubkeyError", m_opaque_err)
    add(r"std::io::_e?print|sol_log$|sol_log_64$|base64::encode|std::fmt::|core::fmt::|alloc::fmt::|^std::string::String|<std::string::String as |to_account_metas$|to_account_infos$|^std::vec::Vec::<|<std::vec::Vec<.*> as |string::ToString>::to_string$|slice::<impl \[.*\]>::(to_vec|into_vec|concat)|sol_log_data|borrow::ToOwned|alloc::alloc|exchange_malloc|box_new|boxed::box_", m_opaque_any)


def m_opaque_err(E, st, fn, args, depth):
    n = norm(fn["name"])
    if n.startswith("<std::result::Result") or n.startswith("std::result::Result") or n.startswith("std::option::Option"):
        return NotImplemented
    return m_opaque_any(E, st, fn, args, depth)
