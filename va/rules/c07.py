"""C07: encoders report every failed write."""
from ..iofail import *

PROP = dict(
    id='C07',
    title='An encoder whose output sink fails reports an error',
    statement='When the sink given to an encoder (PNG, JPEG-XL, PPM, QOI, farbfeld, Radiance HDR, or any encoder reached through the image library) fails to accept a write, a reservation or a flush, encoding returns an '
              'error: it neither panics nor reports success, wherever in the output the failure happens.',
    quantifier=dict(over=['inputs', 'histories'], text='every image and option set, a sink that fails at any single write, reservation or flush'),
    why_tests_cant='Tests write into memory that never fails; each write is a separate fault point.',
    anchors=dict(files=['crates/zune-png/src/encoder.rs', 'crates/zune-png/src/headers/writers.rs', 'crates/zune-jpegxl/src/bit_writer.rs', 'crates/zune-jpegxl/src/encoder.rs', 'crates/zune-ppm/src/encoder.rs',
                        'crates/zune-qoi/src/encoder.rs', 'crates/zune-farbfeld/src/encoder.rs', 'crates/zune-hdr/src/encoder.rs', 'crates/zune-core/src/bytestream/writer.rs', 'crates/zune-image/src/image_io.rs'],
                 mechanism=[dict(name='error propagation of ZWriter calls', where='encode functions of every codec')]))
TECHNIQUE = 'abstract interpretation of MIR with failure injection at every write call site (one site at a time); call-site query for writers that drop errors'
EXPLAIN = """
Call sites: every call of a ZWriter / writer-trait method, and every call of a function that (transitively) writes, in the encoder crates, the writer of zune-core and the encoding side of
zune-image.  For each, the enclosing function is evaluated with that call returning Err: no panic routine or unwrap may be reached and every end state must return Err (None for Option).
Partial writes (write / write_bytes) may only be used where the accepted byte count is returned.  Writer methods which return nothing (the error is lost inside) must not be called on a caller-provided sink.  Writers over a local Vec<u8> cannot fail and are not judged.
"""
ASSUME = ['writing to a Vec<u8> does not fail (allocation failure aborts)', 'third party encoders (jpeg-encoder, webp) propagate errors of the sink they are given', 'std/core models of va/models.py']
CRATES = ['zune_png', 'zune_jpegxl', 'zune_ppm', 'zune_qoi', 'zune_farbfeld', 'zune_hdr', 'zune_bmp', 'zune_jpeg', 'zune_core', 'zune_image']


def over_vec(f, t, c):
    """the writer operated on is a local Vec"""
    for a in t['a'][:1]:
        if a[0] in ('c', 'm'):
            p = a[1]
            l = p if isinstance(p, int) else p[0]
            return bool(re.search(r'ZWriter<&mut (alloc::vec::)?Vec<u8', f.locals[l])) or bool(re.match(r'^&mut (alloc::vec::)?Vec<u8', f.locals[l]))
    return False


def run(cx):
    F = cx.F
    io = io_functions(F, 'write', set(CRATES))
    lossy = set()
    for f in F.fns.values():
        if f.id in io and f.crate == 'zune_core' and strip_generics(f.name).startswith(WRITER) and not f.locals[0].startswith(RESULT):
            lossy.add(f.id)
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        if f.crate not in CRATES or f.id in lossy:
            continue
        k = {}
        for b, t, c in f.calls():
            if c is None:
                continue
            dt = dest_type(f, t)
            nm = c['name'].split('::')[-1]
            if rid(c) in lossy:
                k[nm] = k.get(nm, 0) + 1
                if not over_vec(f, t, c):
                    n += 1
                    cx.ob('%s:%s:%d' % (f.name, nm, k[nm]), False, 'writes to the caller\'s sink with %s, which drops errors' % nm, f.where(t.get('l')))
                continue
            foreign = f.crate == 'zune_image' and f.id in io and rid(c) not in F.fns and re.match(r'^<?(jpeg_encoder|webp|jxl|image)', rname(c))
            if not (io_call(f, c, 'write') or io.has(c) or foreign) or not dt.startswith(RESULT):
                continue
            if over_vec(f, t, c):
                continue
            n += 1
            k[nm] = k.get(nm, 0) + 1
            v, d = fail_at(F, f, b)
            cx.analysed(f)
            if nm in ('write', 'write_bytes') and dt.startswith(RESULT + '<usize'):
                # a short write is no error: the count must reach the caller
                cx.ob('%s:%s:%d:count' % (f.name, nm, k[nm]), f.locals[0].startswith(RESULT + '<usize'), 'the number of bytes accepted by a partial write is %s' % ('returned' if f.locals[0].startswith(RESULT + '<usize') else 'ignored'), f.where(t.get('l')))
            cx.ob('%s:%s:%d' % (f.name, nm, k[nm]), v in ('reported', 'never'), 'a failure of this call is %s%s' % (v, ': ' + d if d else ''), f.where(t.get('l')))
    cx.ob('inventory', n >= 60, '%d fallible write call sites' % n)
