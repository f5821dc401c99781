#!/usr/bin/env python3
"""Rewrite rustc's LLVM IR so that operations on double (and i64) go to symrt.

Only operations are replaced; control flow, memory, calls and data layout stay those of
the compiled code.  `rewrite` returns the new text and a report: how many operations were
redirected and which calls taking or returning doubles leave the encoded code.
"""
import re, sys

FPRED = dict(oeq=0, ogt=1, oge=2, olt=3, ole=4, one=5, ord=6, ueq=7, ugt=8, uge=9, ult=10, ule=11, une=12, uno=13)
IPRED = dict(eq=0, ne=1, ugt=2, uge=3, ult=4, ule=5, sgt=6, sge=7, slt=8, sle=9)
FBIN = dict(fadd='fadd', fsub='fsub', fmul='fmul', fdiv='fdiv', frem='frem')
IARITH = dict(add=0, sub=1, mul=2)
IOTHER = dict(udiv=0, urem=1, sdiv=2, srem=3)
IBIT = {'and': 4, 'or': 5, 'xor': 6, 'shl': 7, 'lshr': 8, 'ashr': 9}
FM = r'(?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*'
OP = r'(%[-\w.$"]+|[-+\w.]+)'

INTR1 = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'log10': 'log10', 'log2': 'log2', 'exp2': 'exp2',
         'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc',
         'round': 'round', 'rint': 'rint', 'nearbyint': 'rint', 'roundeven': 'roundeven', 'asin': 'asin',
         'acos': 'acos', 'atan': 'atan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh'}
INTR2 = {'pow': 'pow', 'maxnum': 'maxnum', 'minnum': 'minnum', 'maximumnum': 'maxnum', 'minimumnum': 'minnum',
         'maximum': 'maxnum', 'minimum': 'minnum', 'copysign': 'copysign', 'atan2': 'atan2'}
LIBM1 = ['log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'tan', 'cbrt', 'lgamma', 'tgamma']
LIBM2 = ['atan2', 'hypot']

RENAME = [
    (re.compile(r'@_RNv\w*4libm4math\w*8lgamma_r8lgamma_r\b'), '@__sym_libm_lgamma_r'),
    (re.compile(r'@_RNv\w*4libm4math\w*6lgamma6lgamma\b'), '@__sym_lgamma'),
    (re.compile(r'@_RNv\w*4libm4math\w*6tgamma6tgamma\b'), '@__sym_tgamma'),
    (re.compile(r'@_RNvXs?\w*4core3fmt5floatdNt\w*_7Display3fmt\b'), '@__sym_f64_fmt'),
    (re.compile(r'@_RNvXs?\w*4core3fmt5floatdNt\w*_5Debug3fmt\b'), '@__sym_f64_dbg'),
    (re.compile(r'@_RNvXs?\w*4core3num\w*dNt\w*7FromStr8from_str\b'), '@__sym_f64_from_str'),
    (re.compile(r'@_RNvXs?\w*4core3fmt3num\w*yNt\w*_7Display3fmt\b'), '@__sym_u64_fmt'),
    (re.compile(r'@_RNvXs?\w*4core3fmt3num\w*jNt\w*_7Display3fmt\b'), '@__sym_u64_fmt'),
]


def rewrite(text, ints=True):
    rep = {'fp_ops': 0, 'int_ops': 0, 'renamed': 0, 'functions': 0, 'leaks': []}
    used = set()
    out = []
    tmp = [0]

    def fresh():
        tmp[0] += 1
        return '%%vs.%d' % tmp[0]

    c_fbin = re.compile(r'^  (\S+) = (fadd|fsub|fmul|fdiv|frem) ' + FM + 'double ' + OP + ', ' + OP + r'(.*)$')
    c_fneg = re.compile(r'^  (\S+) = fneg ' + FM + 'double ' + OP + r'(.*)$')
    c_fcmp = re.compile(r'^  (\S+) = fcmp ' + FM + r'(\w+) double ' + OP + ', ' + OP + r'(.*)$')
    c_intr = re.compile(r'^  (\S+) = (?:tail |notail )?call ' + FM + r'double @llvm\.(\w+)\.f64(?:\.i32)?\(([^()]*)\)(.*)$')
    c_libm = re.compile(r'^  (\S+) = (?:tail |notail )?call ' + FM + r'double @(\w+)\(([^()]*)\)(.*)$')
    c_f2i = re.compile(r'^  (\S+) = (?:tail |notail )?call i(\d+) @llvm\.fpto([su])i\.sat\.i\d+\.f64\(double ' + OP + r'\)(.*)$')
    c_f2i2 = re.compile(r'^  (\S+) = fpto([su])i double ' + OP + r' to i(\d+)(.*)$')
    c_i2f = re.compile(r'^  (\S+) = ([su])itofp (?:nneg )?i64 ' + OP + r' to double(.*)$')
    c_bits = re.compile(r'^  (\S+) = bitcast double ' + OP + r' to i64(.*)$')
    c_ftr = re.compile(r'^  (\S+) = fptrunc ' + FM + 'double ' + OP + r' to float(.*)$')
    c_icmp = re.compile(r'^  (\S+) = icmp (?:samesign )?(\w+) i64 ' + OP + ', ' + OP + r'(.*)$')
    c_iar = re.compile(r'^  (\S+) = (add|sub|mul|udiv|urem|sdiv|srem|and|or|xor|shl|lshr|ashr) (?:(?:nuw|nsw|exact|disjoint) )*i64 ' + OP + ', ' + OP + r'(.*)$')
    c_iov = re.compile(r'^  (\S+) = (?:tail )?call \{ i64, i1 \} @llvm\.([us])(add|sub|mul)\.with\.overflow\.i64\(i64 ' + OP + ', i64 ' + OP + r'\)(.*)$')
    c_imm = re.compile(r'^  (\S+) = (?:tail )?call i64 @llvm\.(umax|umin|smax|smin)\.i64\(i64 ' + OP + ', i64 ' + OP + r'\)(.*)$')
    c_sats = re.compile(r'^  (\S+) = (?:tail )?call i64 @llvm\.usub\.sat\.i64\(i64 ' + OP + ', i64 ' + OP + r'\)(.*)$')
    c_trunc = re.compile(r'^  (\S+) = trunc (?:(?:nuw|nsw) )*i64 ' + OP + r' to (i\d+)(.*)$')
    c_switch = re.compile(r'^  switch i64 ' + OP + r', (.*)$')
    c_gep = re.compile(r'^  (\S+) = getelementptr (inbounds )?(nuw )?(.*), i64 (%[-\w.$"]+)(.*)$')
    c_scmp = re.compile(r'^  (\S+) = call i8 @llvm\.([us])cmp\.i8\.i64\(i64 ' + OP + ', i64 ' + OP + r'\)(.*)$')

    c_icall = re.compile(r'^(  \S+ = (?:tail |notail )?(?:call|invoke) (?:fastcc )?)' + FM + r'double (%[-\w.$"]+)\(((?:double [^(),]+(?:, )?)*)\)(.*)$')
    c_get = re.compile(r'^  (\S+) = (call|invoke) ptr @_RNv\w*22get_finalized_function\(')
    binds = {}
    lines_in = text.split('\n')
    for ln, line in enumerate(lines_in):
        mb = re.match(r'^([-\w.$"]+):', line)
        if mb and binds:
            out.append(line)
            if mb.group(1) in binds:
                out.append('  call void @__sym_jit_bind(ptr %s)' % binds.pop(mb.group(1)))
            continue
        if line.startswith('}'):
            binds = {}
        mg = c_get.match(line)
        if mg:
            rep['jit'] = rep.get('jit', 0) + 1
            out.append(line)
            if mg.group(2) == 'call':
                out.append('  call void @__sym_jit_bind(ptr %s)' % mg.group(1))
            else:
                ml = re.search(r'to label %([-\w.$"]+)', lines_in[ln + 1])
                if ml:
                    binds[ml.group(1)] = mg.group(1)
            continue
        if line.startswith('define '):
            rep['functions'] += 1
        for rx, new in RENAME:
            if rx.search(line):
                if line.startswith('define') :
                    continue
                line, n = rx.subn(new, line)
                rep['renamed'] += n
                used.add(new[1:])
        if not line.startswith('  '):
            out.append(line)
            continue
        if ' double' in line or 'f64' in line:
            m = c_icall.match(line)
            if m:
                pre, fp, args, t = m.groups()
                n = args.count('double ')
                if n <= 10:
                    sep = ', ' if n else ''
                    out.append(f'{pre}double @__sym_icall{n}(ptr {fp}{sep}{args}){t}'.replace('fastcc ', ''))
                    rep['jit'] = rep.get('jit', 0) + 1
                    continue
            m = c_fbin.match(line)
            if m:
                r, op, a, b, t = m.groups()
                out.append(f'  {r} = call double @__sym_{FBIN[op]}(double {a}, double {b})')
                rep['fp_ops'] += 1
                continue
            m = c_fneg.match(line)
            if m:
                r, a, t = m.groups()
                out.append(f'  {r} = call double @__sym_fneg(double {a})')
                rep['fp_ops'] += 1
                continue
            m = c_fcmp.match(line)
            if m:
                r, p, a, b, t = m.groups()
                out.append(f'  {r} = call zeroext i1 @__sym_fcmp(i32 {FPRED[p]}, double {a}, double {b})')
                rep['fp_ops'] += 1
                continue
            m = c_intr.match(line)
            if m:
                r, name, args, t = m.groups()
                if name in INTR1:
                    out.append(f'  {r} = call double @__sym_{INTR1[name]}({args})')
                elif name in INTR2:
                    out.append(f'  {r} = call double @__sym_{INTR2[name]}({args})')
                elif name == 'powi':
                    out.append(f'  {r} = call double @__sym_powi({args})')
                elif name in ('fma', 'fmuladd'):
                    out.append(f'  {r} = call double @__sym_fma({args})')
                else:
                    rep['leaks'].append('intrinsic ' + name)
                    out.append(line)
                    continue
                rep['fp_ops'] += 1
                continue
            m = c_f2i.match(line)
            if m:
                r, w, s, a, t = m.groups()
                k = ('f2u' if s == 'u' else 'f2i') + w
                if w in ('64', '32'):
                    ty = 'i' + w
                    out.append(f'  {r} = call {ty} @__sym_{k}(double {a})')
                else:
                    v = fresh()
                    out.append(f'  {v} = call double @__sym_conc(double {a})')
                    out.append(re.sub(r'double ' + re.escape(a) + r'\)', f'double {v})', line))
                rep['fp_ops'] += 1
                continue
            m = c_f2i2.match(line)
            if m:
                r, s, a, w, t = m.groups()
                v = fresh()
                if w == '64':
                    out.append(f'  {r} = call i64 @__sym_{"f2u64" if s == "u" else "f2i64"}(double {a})')
                else:
                    out.append(f'  {v} = call double @__sym_conc(double {a})')
                    out.append(f'  {r} = fpto{s}i double {v} to i{w}')
                rep['fp_ops'] += 1
                continue
            m = c_bits.match(line)
            if m:
                r, a, t = m.groups()
                out.append(f'  {r} = call i64 @__sym_bits(double {a})')
                rep['fp_ops'] += 1
                continue
            m = c_ftr.match(line)
            if m:
                r, a, t = m.groups()
                out.append(f'  {r} = call float @__sym_fptrunc(double {a})')
                rep['fp_ops'] += 1
                continue
            if ints:
                m = c_i2f.match(line)
                if m:
                    r, s, a, t = m.groups()
                    out.append(f'  {r} = call double @__sym_{s}2f(i64 {a})')
                    rep['fp_ops'] += 1
                    continue
            m = c_libm.match(line)
            if m and (m.group(2) in LIBM1 or m.group(2) in LIBM2):
                r, name, args, t = m.groups()
                out.append(f'  {r} = call double @__sym_{name}({args})')
                rep['fp_ops'] += 1
                continue
        if ints and 'i64' in line:
            m = c_icmp.match(line)
            if m:
                r, p, a, b, t = m.groups()
                out.append(f'  {r} = call zeroext i1 @__sym_icmp(i32 {IPRED[p]}, i64 {a}, i64 {b})')
                rep['int_ops'] += 1
                continue
            m = c_iar.match(line)
            if m:
                r, op, a, b, t = m.groups()
                if op in IARITH:
                    out.append(f'  {r} = call i64 @__sym_iarith(i32 {IARITH[op]}, i64 {a}, i64 {b})')
                    rep['int_ops'] += 1
                    continue
                k = IOTHER.get(op, IBIT.get(op))
                out.append(f'  {r} = call i64 @__sym_iother(i32 {k}, i64 {a}, i64 {b})')
                rep['int_ops'] += 1
                continue
            m = c_iov.match(line)
            if m:
                r, s, op, a, b, t = m.groups()
                k = IARITH[op]
                o = k + (3 if s == 's' else 0)
                v, w, u = fresh(), fresh(), fresh()
                out.append(f'  {v} = call i64 @__sym_iover_v(i32 {k}, i64 {a}, i64 {b})')
                out.append(f'  {w} = call zeroext i1 @__sym_iover_o(i32 {o}, i64 {a}, i64 {b})')
                out.append(f'  {u} = insertvalue {{ i64, i1 }} poison, i64 {v}, 0')
                out.append(f'  {r} = insertvalue {{ i64, i1 }} {u}, i1 {w}, 1')
                rep['int_ops'] += 1
                continue
            m = c_imm.match(line)
            if m:
                r, op, a, b, t = m.groups()
                k = ['umax', 'umin', 'smax', 'smin'].index(op)
                out.append(f'  {r} = call i64 @__sym_iminmax(i32 {k}, i64 {a}, i64 {b})')
                rep['int_ops'] += 1
                continue
            m = c_sats.match(line)
            if m:
                r, a, b, t = m.groups()
                out.append(f'  {r} = call i64 @__sym_satsub(i64 {a}, i64 {b})')
                rep['int_ops'] += 1
                continue
            m = c_trunc.match(line)
            if m:
                r, a, ty, t = m.groups()
                v = fresh()
                out.append(f'  {v} = call i64 @__sym_itrunc(i64 {a})')
                out.append(f'  {r} = trunc i64 {v} to {ty}')
                rep['int_ops'] += 1
                continue
            m = c_scmp.match(line)
            if m:
                r, s, a, b, t = m.groups()
                va, vb = fresh(), fresh()
                out.append(f'  {va} = call i64 @__sym_iconc(i64 {a})')
                out.append(f'  {vb} = call i64 @__sym_iconc(i64 {b})')
                out.append(f'  {r} = call i8 @llvm.{s}cmp.i8.i64(i64 {va}, i64 {vb})')
                continue
            m = c_switch.match(line)
            if m:
                a, t = m.groups()
                v = fresh()
                out.append(f'  {v} = call i64 @__sym_iconc(i64 {a})')
                out.append(f'  switch i64 {v}, {t}')
                rep['int_ops'] += 1
                continue
            m = c_gep.match(line)
            if m:
                r, ib, nu, ty, idx, t = m.groups()
                v = fresh()
                out.append(f'  {v} = call i64 @__sym_iconc(i64 {idx})')
                out.append(f'  {r} = getelementptr {ib or ""}{nu or ""}{ty}, i64 {v}{t}')
                rep['int_ops'] += 1
                continue
        out.append(line)
    body = '\n'.join(out)
    decl = {
        'fcmp': 'zeroext i1 (i32, double, double)', 'powi': 'double (double, i32)', 'fma': 'double (double, double, double)',
        'bits': 'i64 (double)', 'fptrunc': 'float (double)', 'conc': 'double (double)', 'f2u64': 'i64 (double)',
        'f2i64': 'i64 (double)', 'f2u32': 'i32 (double)', 'f2i32': 'i32 (double)', 'u2f': 'double (i64)', 's2f': 'double (i64)',
        'icmp': 'zeroext i1 (i32, i64, i64)', 'iarith': 'i64 (i32, i64, i64)', 'iother': 'i64 (i32, i64, i64)',
        'iover_v': 'i64 (i32, i64, i64)', 'iover_o': 'zeroext i1 (i32, i64, i64)', 'iminmax': 'i64 (i32, i64, i64)',
        'satsub': 'i64 (i64, i64)', 'itrunc': 'i64 (i64)', 'iconc': 'i64 (i64)',
        'jit_bind': 'void (ptr)', **{'icall%d' % n: 'double (ptr%s)' % (', double' * n) for n in range(11)},
        'libm_lgamma_r': '{ double, i32 } (double)', 'f64_fmt': 'zeroext i1 (ptr, ptr)', 'f64_dbg': 'zeroext i1 (ptr, ptr)',
    }
    d1 = ['fneg'] + sorted(set(INTR1.values())) + LIBM1
    d2 = sorted(set(FBIN.values())) + sorted(set(INTR2.values())) + LIBM2
    lines = []
    have = set(re.findall(r'^declare .*@(__sym_\w+)\(', body, re.M))
    done = set()
    for n in d1:
        if n not in done and n not in decl:
            done.add(n)
            decl[n] = 'double (double)'
    for n in d2:
        if n not in done and n not in decl:
            done.add(n)
            decl[n] = 'double (double, double)'
    for n, sig in decl.items():
        f = '__sym_' + n
        if f in have or not re.search('@' + f + r'\b', body):
            continue
        ret, args = sig.rsplit('(', 1) if not sig.startswith('{') else ('{ double, i32 } ', sig.split('(')[1])
        lines.append(f'declare {ret.strip()} @{f}({args}')
    # doubles that leave the encoded code: calls to functions this module does not define
    defined = set(re.findall(r'^define [^@]*@([-\w.$"]+)\(', body, re.M))
    ext = {}
    for m in re.finditer(r'^declare ([^@]*)@([-\w.$"]+)\((.*)$', body, re.M):
        if 'double' in m.group(1) or 'double' in m.group(3):
            ext[m.group(2)] = 1
    rep['extern_double'] = sorted(n for n in ext if not n.startswith('__sym_') and not n.startswith('llvm.'))
    # renamed std functions are declared once
    seen = set()
    fin = []
    for line in body.split('\n'):
        m = re.match(r'^declare .*@(__sym_\w+)\(', line)
        if m:
            if m.group(1) in seen:
                continue
            seen.add(m.group(1))
        fin.append(line)
    return '\n'.join(fin) + '\n' + '\n'.join(lines) + '\n', rep


if __name__ == '__main__':
    t, r = rewrite(open(sys.argv[1]).read())
    open(sys.argv[2], 'w').write(t)
    print(r)
