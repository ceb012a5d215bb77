from vlib import Check
RT = {'C01': ('evidence', 'model_checking'), 'C02': ('bytes', 'model_checking'), 'C03': ('input', 'model_checking'), 'C04': ('output', 'model_checking'), 'C05': ('heap', 'model_checking'), 'C06': ('rc', 'proof'), 'C07': ('tags', 'proof')}
TV = 'translation_validation'
IR = {'C08': ('canon', TV), 'C09': ('scfcf', TV), 'C10': ('dce', TV), 'C11': ('inline', TV), 'C12': ('native_scalar', TV), 'C13': ('wasm_scalar', TV), 'C14': ('heap_values', TV), 'C15': ('heap_rc', TV), 'C16': ('builtins', TV), 'C17': ('closures', TV), 'C18': ('wasm_gc', TV), 'C19': ('wasm_closures', TV), 'C20': ('effects', TV)}
def run(pid, tier):
    if pid in RT:
        import rt_checks
        key, lvl = RT[pid]
        rt_checks.main(Check(pid, tier, lvl), key)
    if pid in IR:
        import ir_checks
        key, lvl = IR[pid]
        ir_checks.main(Check(pid, tier, lvl), key)
    raise SystemExit('unknown property ' + pid)
