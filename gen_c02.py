#!/usr/bin/env python3
"""Generate hx/src/c02_forms.rs from data/inst_table.tsv."""
import os
H = os.path.dirname(os.path.abspath(__file__))
forms = {}
for l in open(H + '/data/inst_table.tsv'):
    c = l.rstrip('\n').split('\t')
    forms.setdefault((c[0], c[1]), []).append(c[2:])
# forms per obligation: without and with a memory operand (one operand serves the whole group)
GR, GM = 12, 6
out = ['// Generated by gen_c02.py from data/inst_table.tsv. One obligation per instruction form.',
       '#![allow(unused_variables)]', 'use crate::dec::*;', 'use crate::regs::*;', 'use kit::*;', 'use xten::asm::*;', '']
DRAW = {
 'Gpr64': 'let c{i} = s.below(16); let p{i} = gpr64_of(c{i}); let v{i} = Opv::G(c{i} as u8);',
 'Gpr32': 'let c{i} = s.below(16); let p{i} = gpr32_of(c{i}); let v{i} = Opv::G(c{i} as u8);',
 'Gpr16': 'let c{i} = s.below(16); let p{i} = gpr16_of(c{i}); let v{i} = Opv::G(c{i} as u8);',
 'Gpr8': 'let c{i} = s.below(20); let p{i} = gpr8_of(c{i}); let v{i} = Opv::B(c{i} as u8);',
 'Xmm': 'let c{i} = s.below(16); let p{i} = xmm_of(c{i}); let v{i} = Opv::X(c{i} as u8);',
 'Memory': 'let (p{i}, e{i}) = (mp, me); let v{i} = Opv::M(e{i});',
 'i8': 'let p{i} = s.i8(); let v{i} = Opv::I8(p{i});', 'i16': 'let p{i} = s.i16(); let v{i} = Opv::I16(p{i});',
 'i32': 'let p{i} = s.i32(); let v{i} = Opv::I32(p{i});', 'i64': 'let p{i} = s.i64(); let v{i} = Opv::I64(p{i});',
}
names = []
fns = []
allf = list(forms.items())
mem = [f for f in allf if 'Memory' in f[0][1]]
reg = [f for f in allf if 'Memory' not in f[0][1]]
groups = [('r%03d' % (i // GR), False, reg[i:i + GR]) for i in range(0, len(reg), GR)]
groups += [('m%03d' % (i // GM), True, mem[i:i + GM]) for i in range(0, len(mem), GM)]
for nm, has_mem, fl in groups:
    names.append(nm)
    out.append('kit::obligation!(%s, kani, unwind = 9, |s| {' % nm)
    if has_mem: out.append('        let (mp, me) = any_mem(s);')
    for j, ((m, t), rows) in enumerate(fl):
        tys = [] if t == '-' else t.split(',')
        body = []
        for i, ty in enumerate(tys):
            body.append(DRAW.get(ty, 'let p{i} = %s; let v{i} = Opv::F;' % ty).format(i=i))
        for i in range(len(tys), 3): body.append('let v%d = Opv::F;' % i)
        rs = []
        for r in rows:
            p, w, op, md, reg, rm, oreg, im = r
            ps = p.split()
            ix = lambda x: '-1' if x == '-' else x
            rs.append('Row { pre: const { pre(&[%s]) }, w: %s, op: const { op(&[%s]) }, opn: %d, modrm: %s, reg: %s, rm: %s, opreg: %s, imm: %s }' % (
                ', '.join('0x' + q for q in ps if q != '-'), 'true' if w == '1' else 'false',
                ', '.join('0x' + b for b in op.split()), len(op.split()), {'-': '-1', 'r': '8'}.get(md, md), ix(reg), ix(rm), ix(oreg), ix(im)))
        label = (m + ' ' + t.replace(',', ', ')).replace(' -', '')
        fns.append('fn %s_%d<S: Src>(s: &mut S%s) {' % (nm, j, ', mp: Memory, me: Ea' if has_mem else ''))
        out.append('        %s_%d(s%s);' % (nm, j, ', mp, me' if has_mem else ''))
        top, out = out, fns
        for b in body: out.append('    ' + b)
        out.append('    let ops = [v0, v1, v2];')
        out.append('    s.assume(encodable(%s, &ops));' % ('true' if rows[0][1] == '1' else 'false'))
        out.append('    note(|| format!("%s {:?}", ops));' % label)
        out.append('    let mut k = Sink::new();')
        out.append('    let _ = k.%s(%s);' % (m, ', '.join('p%d' % i for i in range(len(tys)))))
        cond = ' || '.join('decodes(&k, &%s, &ops)' % r for r in rs)
        out.append('    chk!(%s, "instruction encoding: %s");' % (cond, label))
        out.append('    reach!("%s");' % label)
        out.append('}')
        out = top
    out.append('});')
out += fns
out.append('#[cfg(not(kani))]')
out.append('pub fn entries() -> Vec<Entry> {')
out.append('    vec![')
for n in names: out.append('        kit::entry!("C02", c02_forms::%s, 1, kani),' % n)
out.append('    ]')
out.append('}')
open(H + '/hx/src/c02_forms.rs', 'w').write('\n'.join(out) + '\n')
print(len(names), 'groups')
