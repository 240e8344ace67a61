"""C18: pseudorandom index sampling."""
from ..check import Property
from ..contract import *
from ..sorts import *

H_CTX = "(H : Bytes → Bytes) (H_len : ∀ x, blen (H x) = 32)"
QUAL = "starks.utils:get_pseudorandom_indices"


def blen(b):
    return app("blen", INT, T(b))


def data_loop():
    return [LoopSpec(kind="while", roles={"data": ("data", ("s", BYTES))}, force=True,
                     inv=lambda s: [("expansion", eq(app("grown H", BYTES, T(s.args[2]), as_term(s.data)), app("grown H", BYTES, T(s.args[2]), s.init.data))), ("prefix", eq(app("bslice", BYTES, as_term(s.data), T(0), blen(s.init.data)), s.init.data)),
                                    ("length", le(blen(s.init.data), blen(s.data)))],
                     decreases=lambda s: ite(le(0, 4 * T(s.args[2]) + 32 - blen(s.data)), 4 * T(s.args[2]) + 32 - blen(s.data), T(0)))]


class Sample(Scenarios):
    qual = QUAL
    lean_ctx = H_CTX
    hints = {"ensures:same*": "!(have hd := grown_same h_inv h_inv_3 h_cond h_cond_1; subst hd; intro i hi; rfl)", "ensures:default*": "!(have hd := grown_same h_inv h_inv_3 h_cond h_cond_1; subst hd; intro i hi; rfl)", "inv-step:length": "!(simp only [blen_bcat, H_len]; omega)", "measure-nonneg": "!(split_ifs <;> omega)", "measure-decreases": "!(simp only [blen_bcat, H_len]; split_ifs <;> omega)", "*": "!samp_auto"}
    loops = data_loop()

    def setting(self, ex, excl):
        e, m, c = ex.fresh("entropy", ("s", BYTES)), ex.fresh("m", ("s", INT)), ex.fresh("count", ("s", INT))
        ex.add_fact("req", lt(0, m))
        ex.add_fact("req", lt(m, 2 ** 24))
        ex.add_fact("req", le(0, c))
        ex.args = [e, m, c]
        args = [e, m, c]
        if excl:
            x = ex.fresh("e", ("s", INT))
            ex.add_fact("req", le(2, x))
            ex.add_fact("req", eq(fmod(m, x, pos=True), 0))
            args.append(x)
        return args

    def call(self, ex, args):
        return ex.seq(ex.call(ex.get_function(self.qual), args))

    def in_range(self, ex, r, m, c):
        ex.oblige("ensures:count", eq(T(r.n), c))
        ex.oblige("ensures:low", Forall_range(0, c, lambda i: le(0, T(r.get(i)))))
        ex.oblige("ensures:high", Forall_range(0, c, lambda i: lt(T(r.get(i)), m)))

    def s_plain(self, ex):
        e, m, c = self.setting(ex, False)
        self.in_range(ex, self.call(ex, [e, m, c]), m, c)

    def s_plain_zero(self, ex):
        e, m, c = self.setting(ex, False)
        r = self.call(ex, [e, m, c, 0])
        self.in_range(ex, r, m, c)
        r2 = self.call(ex, [e, m, c])
        equal(ex, "default", r2, r)

    def s_excluded(self, ex):
        e, m, c, x = self.setting(ex, True)
        r = self.call(ex, [e, m, c, x])
        self.in_range(ex, r, m, c)
        ex.oblige("ensures:excluded", Forall_range(0, c, lambda i: ne(fmod(T(r.get(i)), x, pos=True), 0)))

    def s_onto(self, ex):
        """every index in range is produced by some four bytes of entropy"""
        m, y = ex.fresh("m", ("s", INT)), ex.fresh("y", ("s", INT))
        ex.add_fact("req", And(lt(0, m), lt(m, 2 ** 24), le(0, y), lt(y, m)))
        e = app("toBytesBE", BYTES, y, T(4))
        ex.args = [e, m, T(1)]
        r = self.call(ex, [e, m, 1])
        ex.oblige("ensures:onto", eq(T(r.get(0)), y))

    def s_onto_excluded(self, ex):
        m, y, x = ex.fresh("m", ("s", INT)), ex.fresh("y", ("s", INT)), ex.fresh("e", ("s", INT))
        ex.add_fact("req", And(lt(0, m), lt(m, 2 ** 24), le(0, y), lt(y, m)))
        ex.add_fact("req", le(2, x))
        ex.add_fact("req", eq(fmod(m, x, pos=True), 0))
        ex.add_fact("req", ne(fmod(y, x, pos=True), 0))
        e = app("toBytesBE", BYTES, y - 1 - fdiv(y, x, pos=True), T(4))
        ex.args = [e, m, T(1)]
        r = self.call(ex, [e, m, 1, x])
        ex.oblige("ensures:onto", eq(T(r.get(0)), y))

    def s_deterministic(self, ex):
        """positions depend on the arguments only"""
        e, m, c, x = self.setting(ex, True)
        r = self.call(ex, [e, m, c, x])
        r2 = self.call(ex, [e, m, c, x])
        equal(ex, "same", r2, r)


class C18(Property):
    id = "C18"
    contracts = (Sample,)
    lib = ("Pv.Bytes", "Pv.Sample")
    assumptions = ("the hash is a function from byte strings to 32-byte strings",)


PROPERTY = C18()
