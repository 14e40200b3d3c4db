"""Rewrites clang's textual LLVM IR so that every operation on `double` goes through the
symbolic runtime (rt.cpp).  The IR is regenerated from /repo's current sources on every run;
nothing here knows about nlcglib's functions beyond the namespace prefix used to report which
functions were encoded."""
import re

BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
MATH1 = ['sqrt', 'exp', 'log', 'erf', 'erfc', 'fabs', 'cos', 'sin', 'tan', 'tanh', 'cosh', 'sinh',
         'log1p', 'expm1', 'exp2', 'log2', 'log10', 'cbrt', 'floor', 'ceil', 'round', 'trunc',
         'atan', 'rint', 'nearbyint']
MATH2 = ['pow', 'fmax', 'fmin', 'fmod', 'hypot', 'copysign', 'atan2', 'fdim']
INTRIN = {
    'llvm.fabs.f64': 'fabs', 'llvm.sqrt.f64': 'sqrt', 'llvm.exp.f64': 'exp',
    'llvm.log.f64': 'log', 'llvm.pow.f64': 'pow', 'llvm.maxnum.f64': 'fmax',
    'llvm.minnum.f64': 'fmin', 'llvm.copysign.f64': 'copysign', 'llvm.fma.f64': 'fma',
    'llvm.fmuladd.f64': 'fma', 'llvm.floor.f64': 'floor', 'llvm.ceil.f64': 'ceil',
    'llvm.exp2.f64': 'exp2', 'llvm.log2.f64': 'log2', 'llvm.log10.f64': 'log10',
    'llvm.round.f64': 'round', 'llvm.trunc.f64': 'trunc', 'llvm.rint.f64': 'rint',
    'llvm.cos.f64': 'cos', 'llvm.sin.f64': 'sin', 'llvm.nearbyint.f64': 'nearbyint',
}
FN3 = ['fma']

re_bin = re.compile(r'^(\s*%[-\w.$"]+ = )(fadd|fsub|fmul|fdiv|frem) (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*double ([^,]+), ([^,\n]+)(,.*)?$')
re_neg = re.compile(r'^(\s*%[-\w.$"]+ = )fneg (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*double ([^,\n]+)(,.*)?$')
re_cmp = re.compile(r'^(\s*%[-\w.$"]+ = )fcmp (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) double ([^,]+), ([^,\n]+)(,.*)?$')
re_si = re.compile(r'^(\s*%[-\w.$"]+ = )fpto(si|ui) double ([^ ]+) to (i\d+)(,.*)?$')
re_def = re.compile(r'^define .*@("?)([^\s(]+)\1\(')
re_call = re.compile(r'@(%s)\(' % '|'.join(sorted(MATH1 + MATH2 + FN3, key=len, reverse=True)))
re_intr = re.compile(r'@(%s)\(' % '|'.join(re.escape(k) for k in sorted(INTRIN, key=len, reverse=True)))
re_cls = re.compile(r'@llvm\.is\.fpclass\.f64\(')

PREDS = ['oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'uno']


def rewrite(src, dst, base=0, trace_prefixes=('_ZN7nlcglib', '_ZNK7nlcglib')):
    funcs = []
    nops = 0
    seen_decl = set()
    with open(src) as f, open(dst, 'w') as o:
        for line in f:
            if line.startswith('  '):
                if 'double' in line:
                    m = re_bin.match(line)
                    if m:
                        o.write('%scall double @__sym_%s(double %s, double %s)\n' % (m[1], m[2], m[3], m[4].strip()))
                        nops += 1
                        continue
                    m = re_cmp.match(line)
                    if m:
                        if m[2] in ('true', 'false'):
                            o.write(line)
                            continue
                        o.write('%scall zeroext i1 @__sym_fcmp_%s(double %s, double %s)\n' % (m[1], m[2], m[3], m[4].strip()))
                        nops += 1
                        continue
                    m = re_neg.match(line)
                    if m:
                        o.write('%scall double @__sym_fneg(double %s)\n' % (m[1], m[2].strip()))
                        nops += 1
                        continue
                    m = re_si.match(line)
                    if m:
                        o.write('%scall %s @__sym_fpto%s_%s(double %s)\n' % (m[1], m[4], m[2], m[4], m[3]))
                        nops += 1
                        continue
                    if '@' in line:
                        l2 = re_call.sub(r'@__sym_\1(', line)
                        l2 = re_intr.sub(lambda k: '@__sym_%s(' % INTRIN[k[1]], l2)
                        l2 = re_cls.sub('@__sym_isfpclass(', l2)
                        l2 = l2.replace('@__muldc3(', '@__sym_muldc3(').replace('@__divdc3(', '@__sym_divdc3(')
                        if l2 != line:
                            nops += 1
                        line = l2
                o.write(line)
                continue
            if line.startswith('declare'):
                l2 = re_call.sub(r'@__sym_\1(', line)
                l2 = re_intr.sub(lambda k: '@__sym_%s(' % INTRIN[k[1]], l2)
                l2 = re_cls.sub('@__sym_isfpclass(', l2)
                l2 = l2.replace('@__muldc3(', '@__sym_muldc3(').replace('@__divdc3(', '@__sym_divdc3(')
                if l2 != line:
                    # drop attribute groups of the original (e.g. memory(none), speculatable)
                    l2 = re.sub(r'\)\s*(local_unnamed_addr )?#\d+\s*$', ')\n', l2)
                    l2 = l2.replace(' immarg', '')
                    name = re.search(r'@([\w.]+)\(', l2)[1]
                    if name in seen_decl:
                        continue
                    seen_decl.add(name)
                o.write(line if l2 == line else l2)
                continue
            o.write(line)
            if line.startswith('define'):
                m = re_def.match(line)
                if m and line.rstrip().endswith('{') and m[2].startswith(tuple(trace_prefixes)):
                    o.write('  call void @__sym_enter(i32 %d)\n' % (base + len(funcs)))
                    funcs.append(m[2])
        o.write('\ndeclare void @__sym_enter(i32)\n')
        for b in sorted(BIN):
            o.write('declare double @__sym_%s(double, double)\n' % b)
        o.write('declare double @__sym_fneg(double)\n')
        for p in PREDS:
            o.write('declare zeroext i1 @__sym_fcmp_%s(double, double)\n' % p)
        for w in ('i1', 'i8', 'i16', 'i32', 'i64'):
            for s in 'su':
                o.write('declare %s @__sym_fpto%si_%s(double)\n' % (w, s, w))
    return funcs, nops
