"""Writes MANIFEST.json: every property that has a check."""
import os
import sys
import json
import importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common                                        # noqa: E402

CONF = ('The real code is driven with generated inputs; every recording must be a behaviour '
        'of the TLA+ specification, checked by TLC. ')
TECH = {
    'C01': ('TLA+ spec of the patch language; TLC trace validation of the C library, and replay of all small patches TLC enumerates',
            CONF + 'All edit scripts up to a small bound are enumerated by TLC and replayed; beyond that, seeded random patches. LZMA streams are opaque: their plain bytes come from liblzma.'),
    'C02': ('TLA+ spec; TLC trace validation over all single cuts and random chunkings',
            CONF + 'Every single cut of each sampled patch, byte-by-byte feeding, empty chunks and the pull interface.'),
    'C03': ('TLA+ spec with dump/restore actions; TLC model checking of the object design and trace validation of the C library',
            CONF + 'A dump at every point of each sampled patch with lost work, plus random dump/restore histories; the design model is checked exhaustively for small patches.'),
    'C04': ('TLA+ spec (total meaning function for arbitrary bytes); TLC trace validation incl. AddressSanitizer builds',
            CONF + 'All truncations of sampled patches, a catalogue of structured damage in all compressions, random damage and random bytes.'),
    'C05': ('TLA+ spec of in-place apply; TLC trace validation over a geometry sweep',
            CONF + 'Geometries exhaustively for small memories (bounded), random beyond.'),
    'C06': ('TLA+ crash model checked by TLC; power-loss injection at every operation with trace validation',
            CONF + 'Model: every crash point, torn operations, repeated. Code: power lost before, in the middle of or after the n-th memory or step operation, nested crashes, any chunking.'),
    'C07': ('TLA+ device model with bounds/flash/needed rules; TLC trace validation',
            CONF + 'Every recorded erase, write and read of sampled, damaged and impossible patches is checked against the rules.'),
    'C08': ('TLA+ step model; TLC trace validation with step rules, crash reruns',
            CONF + 'Every step callback and every memory operation is assigned to a step by the model.'),
    'C09': ('TLA+ spec with fault actions; TLC trace validation under callback fault injection',
            CONF + 'Faults at the n-th invocation of every callback kind, sequential, in-place, dump, restore and pull.'),
    'C10': ('TLA+ spec of the call life cycle with result codes; TLC trace validation of random call sequences',
            CONF + 'Exact result codes are demanded wherever the documentation names one; LZMA codes are left open.'),
    'C11': ('TLA+ spec of independent objects; TLC trace validation of interleaved sessions',
            CONF + 'Two to four objects in interleavings of their calls; per-object behaviour is the sequential specification.'),
    'C12': ('TLA+ spec of the heatshrink decoder; TLC trace validation of sink/poll/finish histories',
            CONF + 'Static and dynamic builds, all windows and lookaheads, random symbol streams and call histories.'),
    'C13': ('TLA+ spec of CRLE; TLC-enumerated streams replayed, trace validation of compressor and decompressors',
            CONF + 'All short byte strings and streams over a small alphabet, random longer ones, Python and C.'),
    'C14': ('TLA+ spec of size numbers (arbitrary precision as digit sequences); TLC trace validation and enumeration',
            CONF + 'Boundary values of every length, powers of two neighbourhoods and random values up to the format limits.'),
    'C15': ('TLA+ spec of the patch meaning; TLC validation of created patches',
            CONF + 'External compressors are opaque: plain bytes come from an independent decompressor call.'),
    'C16': ('TLA+ spec of the patch meaning; TLC validation of Python applies',
            CONF + 'Generated well-formed patches, all compressions, block boundaries.'),
    'C17': ('TLA+ spec of the patch meaning (total); TLC validation of Python applies of damaged patches',
            CONF + 'All truncations of sampled patches, structured and random damage.'),
    'C18': ('TLA+ in-place spec with step-wise memory; TLC validation of created in-place patches',
            CONF + 'Geometry sweep; safety of every record is decided by the device model.'),
    'C19': ('TLA+ in-place spec; TLC validation of Python in-place applies', CONF),
    'C20': ('TLA+ spec of BSDIFF40; TLC validation of create and apply', CONF),
    'C21': ('TLA+ definition of the suffix array; TLC validation of both builders',
            CONF + 'All strings up to a bound over small alphabets, structured random ones beyond.'),
    'C22': ('TLA+ edit-script spec; TLC validation of the delta generator', CONF),
    'C23': ('TLA+ spec of patch contents; TLC validation of patch_info', CONF),
    'C24': ('TLA+ spec of the patch meaning; the same created patch through Python and C, validated by TLC', CONF),
    'C25': ('TLA+ spec of the file interface; TLC validation of recorded runs on real files', CONF),
    'C26': ('TLA+ spec of data formats (instructions, pointers, blocks); TLC validation of created patches and their application',
            CONF + 'The specification disassembles the from-image, reads the blocks of the created patch and computes the image. '
            'Generated code and data with right, wrong and no segment descriptions.'),
    'C28': ('TLA+ spec of data formats; TLC validation of hand-made data-format patches applied and reported',
            CONF + 'Blocks of every kind with random offsets, addresses and values.'),
    'C29': ('TLA+ spec of the command line (options, files, exit status, report); TLC validation of recorded uses',
            CONF + 'In-process runs, and a sample as processes of their own; sizes and ranges are parsed by the specification.'),
    'C30': ('TLA+ spec of segments from ELF symbols; TLC validation of recorded command line uses',
            CONF + 'Generated ELF files, 32 and 64 bit, one or two symbol tables, interleaved, duplicate, empty and stray symbols.'),
    'C31': ('TLA+ spec of the apply object with the compressions built in as a parameter; TLC trace validation of sessions with every build',
            CONF + 'All 32 combinations of the build switches, static and dynamic heatshrink decoder, plain and address-sanitized.'),
}
NA = {'C27': 'The HDiffPatch submodule is not checked out (c_extensions/HDiffPatch is empty) and cannot be fetched, '
             'so the code behind hdiffpatch and match-blocks cannot be built here.'}
MODULES = ['c_apply', 'c_parts', 'py_apply', 'py_create', 'files', 'formats', 'cli']


def main():
    have = {}
    for m in MODULES:
        if os.path.exists(os.path.join(common.VERIF, 'checks', m + '.py')):
            have.update(importlib.import_module('checks.' + m).CHECKS)
    ids = [json.loads(l)['id'] for l in open(os.path.join(common.VERIF, 'properties.jsonl'))]
    checks = []
    na = []
    for i in ids:
        if i in have:
            checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 checks/run.py ' + i,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                           'technique': TECH[i][0], 'level': 'model_checking',
                           'level_note': TECH[i][1]})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
    out = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks are needed in /repo: the library is observed through its callbacks and the '
                    'Python package through its public functions.'}
    with open(os.path.join(common.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
