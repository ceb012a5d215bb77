"""Programs with lambdas on WebAssembly."""
import heap, native, closures_, wgc, wasmtv, tv
from sem import *

class WKPre(closures_.KPre, wgc.WHeapPre):
    def op_func_call_indirect(self, st, op):
        if not self.kcall(st, op, op): return wgc.WHeapPre.op_func_call_indirect(self, st, op)
    def op_func_tail_call_indirect(self, st, op):
        if not self.kcall(st, op, 'tail'): return wgc.WHeapPre.op_func_tail_call_indirect(self, st, op)
class WKSpec(wgc.GcSpec):
    def __init__(self, inl=False, **k):
        super().__init__(passes=['lower_closure_lambda', 'closure_lower'] + (['inline', 'canonicalize_pass', 'dce_pass', 'casts_generic'] if inl else []) + wasmtv.WP, **k)
        self.Ev, self.before = WKPre, ['physical']
        rel = self.relate
        self.relate = lambda x, w1, y, w2: False if isinstance(x, heap.Obj) and isinstance(y, heap.Obj) else rel(x, w1, y, w2)
def mkspec(*a, **k): return WKSpec(**{x: k[x] for x in k if x == 'inl'})
def program(seed, **k):
    i = seed % 12; return closures_.program(seed, **dict(wgc.KW, typed=i % 3 != 1, fresh=i % 4 != 1, tyf=.5 if i % 2 else 0.0, **k))
def corpus(): return CASES + [(t, p) for t, p in closures_.corpus() if 'core.i8' not in p and 'core.i16' not in p and t not in ('several blocks', 'function parameter captured')]
KNOWN = [('known: function-typed parameter captured by a lambda', dict(closures_.corpus())['function parameter captured'])]
CASES = [('boxed number passed to a lambda', f'''core.module @m {{
  func.func @entry(%x: core.i64) -> core.i64 {{
    %k = closure.lambda(%y: tribute_rt.anyref) -> core.i64 {closures_.C0} [%x] {{
      func.return %x
    }}
    %c = arith.const {{value = 5}} : core.i32
    %b = tribute_rt.box_int %c : tribute_rt.anyref
    %r = func.call_indirect %k, %b {closures_.C0} : core.i64
    func.return %r
  }}
}}
''')]
KNOWN_INL = [('known: new object passed to a lambda, casts resolved before the back end', f'''core.module @m {{
  !S = adt.struct() {{name = @S, fields = [[@f0, core.i64]]}}
  func.func @entry(%x: core.i64) -> core.i64 {{
    %k = closure.lambda(%y: tribute_rt.anyref) -> core.i64 {closures_.C0} {{
      %v = adt.struct_get %y {{type = !S, field = 0}} : core.i64
      func.return %v
    }}
    %s = adt.struct_new %x {{type = !S}} : !S
    %u = core.unrealized_conversion_cast %s : tribute_rt.anyref
    %r = func.call_indirect %k, %u {closures_.C0} : core.i64
    func.return %r
  }}
}}
''')]
