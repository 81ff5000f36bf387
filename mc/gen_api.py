#!/usr/bin/env python3
"""Generates the call dispatcher of the explorer from the public C header of the library.

Every public function becomes one alphabet symbol with a typed signature.  Nothing in
here looks at the implementation: only include/capypdf.h.in is read.
"""
import re, sys

LENNAMES = {'strsize', 'namelen', 'namesize', 'keylen', 'valuelen', 'code_size', 'datasize',
            'axis_size', 'strlen', 'bufsize'}

def parse(header):
    txt = re.sub(r'//[^\n]*', '', header)
    txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
    enums = {}
    for m in re.finditer(r'typedef enum\s*\{(.*?)\}\s*(\w+)\s*;', txt, flags=re.S):
        vals = []
        cur = -1
        names = {}
        for item in m.group(1).split(','):
            item = item.strip()
            if not item:
                continue
            if '=' in item:
                n, v = [x.strip() for x in item.split('=', 1)]
                cur = eval(v, {}, dict(names))
            else:
                n = item
                cur += 1
            names[n] = cur
            vals.append((n, cur))
        enums[m.group(2)] = vals
    ids = re.findall(r'typedef struct\s*\{\s*int32_t id;\s*\}\s*(\w+)\s*;', txt)
    handles = re.findall(r'typedef struct _\w+\s+(\w+)\s*;', txt)
    fns = []
    for m in re.finditer(r'CAPYPDF_PUBLIC\s+([\w\s\*]*?)\b(capy_\w+)\s*\((.*?)\)\s*(?:CAPYPDF_\w+(?:\s*\([^)]*\))?\s*)*;',
                         txt, flags=re.S):
        ret = m.group(1).strip()
        name = m.group(2)
        params = []
        for p in m.group(3).split(','):
            p = ' '.join(p.split())
            mm = re.match(r'^(.*?)(\w+)$', p)
            if not mm or mm.group(2) in handles:  # unnamed parameter
                t, n = p, 'arg'
            else:
                t, n = mm.group(1).strip(), mm.group(2)
            t = t.replace(' *', '*').replace('* ', '*')
            params.append((t, n))
        nn = m.group(0)
        nonnull_all = 'CAPYPDF_DEFAULT_FUNCTION_PROPS' in nn
        at = re.search(r'CAPYPDF_NONNULL_ARGS_AT\(([^)]*)\)', nn)
        nonnull = None if nonnull_all else ({int(x) for x in at.group(1).split(',')} if at else set())
        fns.append((ret, name, params, nonnull))
    return enums, ids, handles, fns

def main():
    header = open(sys.argv[1]).read()
    out = open(sys.argv[2], 'w')
    enums, ids, handles, fns = parse(header)
    w = out.write
    w('// generated by gen_api.py\n')
    for ret, name, params, _ in fns:
        w(f'#pragma weak {name}\n')
    w('static const std::vector<EnumInfo> gen_enums = {\n')
    for e, vals in enums.items():
        w('  {"%s", {%s}},\n' % (e, ', '.join('{"%s", %d}' % v for v in vals)))
    w('};\n')
    fnrows = []
    for ret, name, params, nonnull in fns:
        if name == 'capy_error_message':
            continue
        args = []    # (kind, ctype, pname)
        cexprs = []
        i = 0
        ai = 0
        while i < len(params):
            t, n = params[i]
            base = t.replace('const ', '').replace('*', '').strip()
            stars = t.count('*')
            nxt = params[i + 1] if i + 1 < len(params) else None
            opt = (nonnull is not None) and ((i + 1) not in nonnull)
            def isint(x):
                return x and x[0] in ('int32_t', 'int64_t', 'uint64_t', 'uint32_t')
            if base == 'char' and stars == 1:
                if isint(nxt) and nxt[1] in LENNAMES:
                    k = 'BUF' if nxt[0] in ('uint64_t', 'int64_t') else ('OPTSTRN' if opt else 'STRN')
                    cexprs += [f'cx.str(o,{ai})', f'({nxt[0]})cx.len(o,{ai})']
                    i += 1
                else:
                    k = 'CSTR'
                    cexprs.append(f'cx.str(o,{ai})')
                args.append((k, base, n))
            elif base == 'double' and stars == 1:
                if n == 'out_ptr':
                    args.append(('OUTDBL', base, n)); cexprs.append(f'cx.outdbl(o,{ai})')
                elif isint(nxt):
                    args.append(('DARRN', base, n)); cexprs += [f'(double*)cx.darr(o,{ai})', f'({nxt[0]})cx.darrlen(o,{ai})']
                    i += 1
                elif opt:
                    args.append(('OPTDBL', base, n)); cexprs.append(f'(double*)cx.darr(o,{ai})')
                else:
                    args.append(('DARR', base, n)); cexprs.append(f'(double*)cx.darr(o,{ai})')
            elif base in handles:
                if stars == 2 and n == 'out_ptr':
                    args.append(('OUTH', base, n)); cexprs.append(f'({base}**)cx.outh(o,{ai})')
                elif stars == 2:
                    args.append(('HARR', base, n)); cexprs.append(f'(const {base}**)cx.harr(o,{ai})')
                elif stars == 1:
                    args.append(('OPTH' if opt else 'H', base, n)); cexprs.append(f'({base}*)cx.h(o,{ai})')
                else:
                    raise SystemExit(f'{name}: {t} {n}')
            elif base in ids:
                if stars == 0:
                    args.append(('ID', base, n)); cexprs.append(f'{base}{{cx.i32(o,{ai})}}')
                elif n == 'out_ptr':
                    args.append(('OUTID', base, n)); cexprs.append(f'({base}*)cx.outi(o,{ai})')
                elif isint(nxt):
                    args.append(('IDARRN', base, n)); cexprs += [f'({base}*)cx.iarr(o,{ai})', f'({nxt[0]})cx.iarrlen(o,{ai})']
                    i += 1
                else:
                    args.append(('OPTID', base, n)); cexprs.append(f'({base}*)cx.iptr(o,{ai})')
            elif base in enums:
                if stars == 0:
                    args.append(('ENUM', base, n)); cexprs.append(f'({base})cx.i32(o,{ai})')
                elif n == 'out_ptr':
                    args.append(('OUTI', base, n)); cexprs.append(f'({base}*)cx.outi(o,{ai})')
                else:
                    args.append(('OPTENUM', base, n)); cexprs.append(f'({base}*)cx.iptr(o,{ai})')
            elif base == 'double':
                args.append(('DBL', base, n)); cexprs.append(f'cx.dbl(o,{ai})')
            elif base in ('int32_t', 'uint32_t', 'int64_t', 'uint64_t'):
                if stars == 0:
                    args.append(('INT', base, n)); cexprs.append(f'({base})cx.i64(o,{ai})')
                elif n in ('out_ptr', 'w', 'h'):
                    args.append(('OUTI', base, n)); cexprs.append(f'({base}*)cx.outi(o,{ai})')
                else:
                    args.append(('OPTINT', base, n)); cexprs.append(f'({base}*)cx.iptr(o,{ai})')
            else:
                raise SystemExit(f'unhandled parameter {t} {n} of {name}')
            i += 1
            ai += 1
        w(f'static int call_{name}(CallCtx &cx, const Op &o) {{ (void)cx; (void)o; if(!{name}) return NO_SUCH_FUNCTION; return api_call({", ".join([name] + cexprs)}); }}\n')
        a = ', '.join('{PK::%s, "%s", "%s"}' % x for x in args)
        fnrows.append('  {"%s", {%s}, &call_%s},\n' % (name, a, name))
    w('static const std::vector<FnInfo> gen_fns = {\n' + ''.join(fnrows) + '};\n')
    w('static const std::vector<std::string> gen_handles = {%s};\n' % ', '.join('"%s"' % h for h in handles))
    w('static const std::vector<std::string> gen_ids = {%s};\n' % ', '.join('"%s"' % h for h in ids))

if __name__ == '__main__':
    main()
