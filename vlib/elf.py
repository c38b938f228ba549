"""ELF files with given sections and symbols."""
import struct


def write_elf(wide, machine, sections, syms, dyn=False, lift=0):
    """sections: (name, address, contents, in the file?); syms: (type, value,
    size).  All addresses but 0 are raised by lift.  Returns the file, and what the
    specification is told of it (not raised)."""
    names = bytearray(b'\0')

    def name(s):
        names.extend(s.encode() + b'\0')
        return len(names) - len(s) - 1
    head = 64 if wide else 52
    out = bytearray(head)
    rows = [(0,) * 10]
    none = -0x20000000 if lift else 0
    view = [{'addr': none, 'off': 0, 'size': 0, 'data': []}]
    for n, addr, content, real in sections:
        while len(out) % 4:
            out.append(0xee)
        off = len(out)
        if real:
            out += content
        flags = {'.text': 6, '.rodata': 2, '.debug': 0}.get(n, 3)
        rows.append((name(n), 1 if real else 8, flags, addr + lift if addr else 0, off, len(content), 0, 0, 4, 0))
        view.append({'addr': addr or none, 'off': off, 'size': len(content), 'data': list(content)})
    strtab = bytearray(b'\0')
    entry = struct.Struct('<IBBHQQ') if wide else struct.Struct('<IIIBBH')
    tables = [syms]
    if dyn:
        tables = [syms[::2], syms[1::2]]
    first = len(rows)
    told = []
    for k, part in enumerate(tables):
        raw = bytearray(entry.size)
        for n, (typ, value, size) in enumerate(part):
            at = len(strtab)
            strtab += b's%d_%d\0' % (k, n)
            t = {'func': 2, 'object': 1}.get(typ, [0, 3, 4][n % 3])
            info = 0x10 | t
            up = value + lift
            raw += entry.pack(at, info, 0, 1, up, size) if wide else entry.pack(at, up, size, info, 0, 1)
            told.append({'type': typ, 'value': value, 'size': size})
        off = len(out)
        out += raw
        rows.append((name('.symtab' if k == 0 else '.dynsym'), 2 if k == 0 else 11, 0, 0, off, len(raw), first + len(tables), 1, 4, entry.size))
        view.append({'addr': none, 'off': off, 'size': len(raw), 'data': []})
    for n, content in (('.strtab', strtab), ('.shstrtab', names)):
        at = name(n)
        off = len(out)
        out += content
        rows.append((at, 3, 0, 0, off, len(content), 0, 0, 1, 0))
        view.append({'addr': none, 'off': off, 'size': len(content), 'data': []})
    while len(out) % 8:
        out.append(0)
    shoff = len(out)
    row = struct.Struct('<IIQQQQIIQQ' if wide else '<IIIIIIIIII')
    for r in rows:
        out += row.pack(*r)
    ident = b'\x7fELF' + bytes([2 if wide else 1, 1, 1]) + bytes(9)
    if wide:
        h = struct.pack('<HHIQQQIHHHHHH', 2, machine, 1, 0, 0, shoff, 0, 64, 0, 0, 64, len(rows), len(rows) - 1)
    else:
        h = struct.pack('<HHIIIIIHHHHHH', 2, machine, 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(rows), len(rows) - 1)
    out[:head] = ident + h
    return bytes(out), {'sections': view, 'syms': told, 'lift': list(lift.to_bytes(8, 'little'))}
