#!/usr/bin/env python3
"""Independent reading of the instruction table (data/x86.csv, a snapshot of the
Intel/Stanford table the project is generated from, with the JECXZ row corrected to
carry its 67 prefix) into the list of supported instruction *forms*.

Shares no code with /repo/xtencg.  Output: data/inst_table.tsv, one line per form:
  method \t operand-types \t prefixes \t rexw \t opcode \t modrm \t reg \t rm \t opreg \t imm
(modrm: '-', 'r' or digit; reg/rm/opreg/imm: operand index or '-').
"""
import re, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
SKIP_OP = re.compile(r'^(INS|OUTS|LODS|SCAS|STOS|MOVS|CMPS|REP|LOOP|LOOPN|ENTER|LGDT|LIDT|LLDT|SLDT|SMSW|XLAT|LSL|LTR|LAR).?$')
KEEP_OP = {'MOVSS', 'MOVSD', 'MOVSX', 'CMPSS', 'CMPSD'}
SKIP_OPERAND = re.compile(r':|&|Sreg|moffs|FS|GS|DR|CR|^m8|^m16|^mm')
GPR = {'8': 'Gpr8', '16': 'Gpr16', '32': 'Gpr32', '64': 'Gpr64'}
FIXED = {'AL': '_Al', 'AX': '_Ax', 'EAX': '_Eax', 'RAX': '_Rax', 'CL': '_Cl', 'DX': '_Dx', '<XMM0>': '_Xmm0', '1': '_1', '3': '_3'}

def operand(o):
    """-> (kind, [concrete rust types]) ; kind in rel imm r rm m x xm fixed"""
    if o in FIXED: return 'fixed', [FIXED[o]], o
    m = re.fullmatch(r'rel(8|32)', o)
    if m: return 'rel', ['i' + m[1]], o
    m = re.fullmatch(r'imm(8|16|32|64)', o)
    if m: return 'imm', ['i' + m[1]], o
    m = re.fullmatch(r'r(8|16|32|64)', o)
    if m: return 'r', [GPR[m[1]]], o
    if o == 'reg': return 'r', ['Gpr64'], o
    m = re.fullmatch(r'r/m(8|16|32|64)', o)
    if m: return 'rm', [GPR[m[1]], 'Memory'], o
    m = re.fullmatch(r'(r32|reg)/m(8|16|32)', o)
    if m: return 'rm', ['Gpr32' if m[1] == 'r32' else 'Gpr64', 'Memory'], o
    if re.fullmatch(r'm(32|64|128)?', o): return 'm', ['Memory'], o
    if re.fullmatch(r'xmm[12]?', o): return 'x', ['Xmm'], o
    if re.fullmatch(r'xmm[12]?/m(16|32|64|128)', o): return 'xm', ['Xmm', 'Memory'], o
    raise SystemExit('operand? ' + o)

rows = {}
for line in open(os.path.join(HERE, 'data', 'x86.csv'), encoding='utf-8'):
    c = line.rstrip('\n').split('\t')
    if len(c) < 15: continue
    op, ins, en, x64, flags, mn, desc = c[0].strip(), c[1].strip(), c[2], c[9].strip(), c[11].strip(), c[12].strip(), c[14].strip()
    if not op or not ins or x64 != 'V': continue
    if flags and not flags.startswith('SSE') and flags != 'POPCNT': continue
    if re.search(r'Far +return', desc): continue
    w = ins.replace(',', ' ').split()
    if SKIP_OP.match(w[0]) and w[0] not in KEEP_OP: continue
    if any(SKIP_OPERAND.search(o) for o in w[1:]): continue
    mn = mn or w[0].lower()
    ops = [operand(o) for o in w[1:]]
    comps = op.split()
    pref, rex, opcode, modrm, plusr, imm, code = [], None, [], None, False, None, None
    i = 0
    while i < len(comps):
        k = comps[i]
        if k == 'PREF.66+': k = '66'
        if k in ('REX+', 'REX.W+'): rex = k == 'REX.W+'
        elif re.fullmatch(r'c[bwdo]', k): code = {'b': 1, 'w': 2, 'd': 4, 'o': 8}[k[1]]  # lower case: code offset
        elif re.fullmatch(r'[0-9A-Fa-f]{2}', k):
            b = int(k, 16)
            if not opcode and rex is None and b in (0x66, 0x67, 0xf2, 0xf3): pref.append(b)
            else: opcode.append(b)
        elif re.fullmatch(r'/[0-7]', k): modrm = k[1]
        elif k == '/r': modrm = 'r'
        elif re.fullmatch(r'\+r[bwdo]', k): plusr = True
        elif re.fullmatch(r'i[bwdo]', k): imm = {'b': 1, 'w': 2, 'd': 4, 'o': 8}[k[1]]
        else: raise SystemExit('component? %r in %r' % (k, c))
        i += 1
    # operand roles
    reg = rm = opreg = im = None
    for j, (kind, tys, raw) in enumerate(ops):
        h = en[j] if j < len(en) else None
        if kind == 'fixed': continue
        if kind in ('imm', 'rel'):
            assert im is None; im = j; continue
        if plusr and h == 'O': opreg = j; continue
        if kind == 'rm': role = 'reg' if h == 'R' else 'rm'
        elif kind == 'm': role = 'rm'
        elif kind == 'xm': role = 'reg' if h == 'R' else 'rm'
        else: role = 'rm' if h == 'M' else 'reg'
        if role == 'reg': assert reg is None, c; reg = j
        else: assert rm is None, c; rm = j
    if modrm is None and (reg is not None or rm is not None): modrm = 'r'
    # 64-bit mode default operand size is 32 bits: any 16-bit register/immediate operand needs 66
    # (exceptions: the 16-bit operand is the narrower source of a widening move, or the operand
    # size is not an attribute of the instruction)
    if any(raw in ('r16', 'r/m16', 'AX', 'imm16') for _, _, raw in ops) and mn not in ('movswl', 'movswq', 'movzwl', 'movzwq', 'retq', 'verr', 'verw', 'lmsw'):
        if 0x66 not in pref: pref.append(0x66)
    key = (mn, tuple(raw for _, _, raw in ops))
    # key for merging: same mnemonic, same operand list by kind/size
    norm = tuple(re.sub(r'xmm[12]', 'xmm', raw) for _, _, raw in ops)
    row = (tuple(pref), bool(rex), tuple(opcode), modrm, reg, rm, opreg, im, ops)
    k = (mn, norm)
    if k in rows:
        a = rows[k]
        if a[:2] != row[:2] or a[2:8] != row[2:8]:
            # a REX+ variation of the same row
            assert a[0] == row[0] and a[2:8] == row[2:8], (k, a, row)
        continue
    rows[k] = row

bymn = {}
for (mn, norm), row in rows.items(): bymn.setdefault(mn, {}).setdefault(len(norm), []).append((norm, row))
out = []
for mn, ar in sorted(bymn.items()):
    major = max(sorted(ar, reverse=False), key=lambda a: (len(ar[a]), -a))
    for a, items in sorted(ar.items()):
        name = mn if a == major else f'{mn}{a}'
        for norm, (pref, w, opcode, modrm, reg, rm, opreg, im, ops) in items:
            combos = [[]]
            for _, tys, _ in ops: combos = [x + [t] for x in combos for t in tys]
            for t in combos:
                if reg is not None and t[reg] == 'Memory': raise SystemExit('mem in reg ' + name)
                f = lambda x: '-' if x is None else str(x)
                out.append('\t'.join([name, ','.join(t) or '-', ' '.join('%02x' % p for p in pref) or '-', str(int(w)), ' '.join('%02x' % b for b in opcode), modrm or '-', f(reg), f(rm), f(opreg), f(im)]))
# forms that coincide after expansion (r/m64 row and m64 row, or the two directions of a
# register-register move) are alternatives: every row is a valid encoding of that form.
res = sorted(dict.fromkeys(out), key=lambda l: l.split('\t')[:2])
open(os.path.join(HERE, 'data', 'inst_table.tsv'), 'w').write('\n'.join(res) + '\n')
print(len({tuple(l.split('\t')[:2]) for l in res}), 'forms', len(res), 'rows')
