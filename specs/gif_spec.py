"""C36: frames on their way to a GIF. Pillow is replaced by its contract (fake_pil: images that record what was done)."""
import contextlib
import io
import sys
import types
from collections import Counter
import PIL.Image
from common import *
from fake_pil import Im, SAVED, fake_pil

BINARY = ('point', (0,) * 255 + (255,))


def builder(v, images=()):
    b = v.m.anim.Builder(None, None, None)
    b.images = images
    return b


def shrunk(im, content, mode, size):
    """im is content reduced to size, its alpha switched on or off"""
    small = ('resize', size, PIL.Image.BICUBIC, content)
    return im.mode == mode and im.size == size and im.describe() == (
        (('alpha', (BINARY + (('band', 'A') + (small,),),), small),) if mode == 'RGBA' else (small,))


@lemma('C36', 'Builder.resize_for_gif getalpha', budget=20)
def gif_resize(v):
    """alpha is on exactly where resampling left it fully on; images without alpha are only resampled"""
    mode = v.choice('mode', ['RGBA', 'RGB', 'L'])
    w, h, x, y = (v.integer(n, 1, 500) for n in ('w', 'h', 'x', 'y'))
    if not v.symbolic:                          # the same width or height, often
        x, y = w if v.special('same width', [True], 0.2) else x, h if v.special('same height', [True], 0.2) else y
    with fake_pil():
        im = Im(mode, (w, h), 'content')
        r = builder(v).resize_for_gif(im, x, y)
        v.check('a new image', r is not im)
        v.eq('size', r.size, (x, y))
        v.eq('resampled', shape(r, 'content', mode, (x, y)), True)
        v.eq('image unchanged', (im.describe(), im.size, im.mode), (('content',), (w, h), mode))


def shape(r, content, mode, size):
    """what was done to content, sizes aside"""
    d = r.describe()
    if r.mode != mode or len(d) != 1:
        return 'mode or drawing'
    d = d[0]
    if mode == 'RGBA':
        if not (len(d) == 3 and d[0] == 'alpha' and len(d[1]) == 1):
            return 'alpha not set'
        a, d = d[1][0], d[2]
        if a[:2] != BINARY:
            return 'alpha not switched'
        if a[2][:2] != ('band', 'A') or a[2][2] is not d and a[2][2][0] != 'resize':
            return 'not its own alpha'
    if d[0] != 'resize' or len(d) != 4:
        return 'not resampled'
    return d[3] == content


def frames(v, what='RGBA', lo=1, box=False, differ=False):
    W, H = v.integer('W', 1, 200), v.integer('H', 1, 200)

    def mk(v, n):
        im = Im(what, (v.integer(n + '.W', 1, 200), v.integer(n + '.H', 1, 200)) if differ else (W, H), n)
        if box:
            im.box = tuple(v.integer(n + '.' + k, 0, 200) for k in ('xl', 'yl', 'xh', 'yh'))
        return im, (n, im.box if box else None)
    return v.seq('frames', mk, lo), W, H


@lemma('C36', 'Builder.scaled Builder.resize_for_gif', budget=40)
def scaled_any_number(v):
    """any number of frames of any size: cropped, shrunk, in order"""
    mode = v.choice('mode', ['RGBA', 'RGB'])
    crop = v.flag('crop')
    S, W, H = frames(v, mode, differ=crop)           # frames of different sizes, when all are cropped to the same box
    k = v.choice('scale', [1, 2, 3, 10])
    box = tuple(v.integer(x, 0, 300) for x in ('xl', 'yl', 'xh', 'yh')) if crop else None
    if box:
        v.assume(v.and_(box[0] < box[2], box[1] < box[3]))
    own = v.flag('own')
    with fake_pil():
        b = builder(v, S.list if own else [])
        r = b.scaled(k, *((box,) if box else ()), **({} if own else {'images': S.list}))
        w, h = (box[2] - box[0], box[3] - box[1]) if box else (W, H)

        def each(i, im):
            c = S.at(i)[0]
            d, = im.describe()
            if k == 1:
                v.eq('size', im.size, (w, h))
            else:
                v.eq('size', im.size, (v.floordiv(w, k), v.floordiv(h, k)))
                inner = d[2] if mode == 'RGBA' else d
                v.eq('resampled', shape(im, inner[3], mode, None), True)
                d = inner[3]
            if box:
                v.check('cropped', d[0] == 'crop' and len(d) == 3)
                v.eq('crop', d[1], box)
                d = d[2]
            v.eq('its frame', d, c)
        v.each('frames', r, S.n, each)
        if own:
            v.check('frames kept', b.images is S.list)


@lemma('C36', 'rgb_to_transparent', budget=20)
def transparent(v):
    """mapped with the palette given, transparent where the colour is that of the upper left pixel"""
    A = v.m.anim
    pal = Im('P', (4, 4), 'palette')
    with fake_pil():
        im = Im('RGB', (v.integer('w', 1, 50), v.integer('h', 1, 50)), 'content')
        r = A.rgb_to_transparent(im, palette_image=pal)
        v.check('mapped', r.mode == 'P' and r.describe() == (('mapped', pal, PIL.Image.NONE, 'content'),))
        v.check('transparent', r.info == {'transparency': ('pixel', (0, 0)) + r.describe()})
        v.check('unchanged', im.describe() == ('content',) and im.info == {})
        v.raises('RGB only', AssertionError, A.rgb_to_transparent, Im(v.choice('mode', ['RGBA', 'L', 'P']), (3, 3), 'x'), palette_image=pal)


@lemma('C36', 'Builder.make_palette palette_image', bound='small images, seeded', sym=False, fuzz=25)
def palette(v):
    """the 256 most frequent colours of all frames together; frames of few colours are kept exactly"""
    A = v.m.anim
    k = v.choice('colours', [1, 2, 5, 40, 256, 257, 300])
    cols = [(i % 16 * 16, i // 16 * 13 % 256, v.integer('blue', 0, 255)) for i in range(k)]
    n = v.choice('frames', [1, 2, 3])
    rep = v.integer('repeat', 1, 7)
    ims, left = [], [c for i, c in enumerate(cols) for _ in range(1 + (i * rep) % 7)]
    for f in range(n):
        px = left[f::n]
        im = PIL.Image.new('RGB', (8, max(1, -(-len(px) // 8))), cols[0])
        im.putdata(px)
        ims.append(im)
    count = Counter(c for im in ims for c in pixels(im))
    before = [im.tobytes() for im in ims]
    pal = A.Builder.make_palette(ims)
    v.check('frames unchanged', before == [im.tobytes() for im in ims])
    p = pal.getpalette()
    used = len(pal.palette.colors)
    have = {tuple(p[i:i + 3]) for i in range(0, 3 * used, 3)}
    v.check('as many colours as fit', len(have) == min(256, len(count)) and have <= set(count))
    v.check('the most frequent ones', min(count[c] for c in have) >= max([count[c] for c in count if c not in have] + [0]))
    if len(count) <= 2:
        v.check('kept exactly', all(pixels(A.rgb_to_transparent(im, palette_image=pal).convert('RGB')) == pixels(im) for im in ims))


def pixels(im):
    b = im.tobytes()
    return [tuple(b[i:i + 3]) for i in range(0, len(b), 3)]


@contextlib.contextmanager
def export(v, calls):
    """make_palette by contract, and a platform that saves"""
    A = v.m.anim
    gone = object()
    quick = vars(A.platform).get('quicklook', gone)
    gifsicle = types.ModuleType('pygifsicle')
    gifsicle.optimize = lambda *a: None
    old = A.Builder.__dict__['make_palette'], sys.platform, sys.modules.get('pygifsicle')

    def make_palette(images):
        calls.append(images)
        return 'the palette'
    A.Builder.make_palette = staticmethod(make_palette)
    A.platform.quicklook = lambda path: None
    sys.modules['pygifsicle'] = gifsicle
    try:
        with fake_pil():
            sys.platform = 'darwin'
            yield
    finally:
        A.Builder.make_palette, sys.platform = old[:2]
        if old[2] is None:
            del sys.modules['pygifsicle']
        else:
            sys.modules['pygifsicle'] = old[2]
        if quick is gone:
            del A.platform.quicklook
        else:
            A.platform.quicklook = quick


@lemma('C36', 'Builder.save_animation Builder.max_bbox Builder.scaled Builder.resize_for_gif rgb_to_transparent composed single', budget=60)
def saved_any_number(v):
    """any number of frames: cropped to their common box and a margin, halved, on black, all with one palette, saved in order"""
    mode = v.choice('mode', ['RGBA', 'RGB'])
    crop = v.flag('crop')
    if v.symbolic and crop:
        L = tuple(v.integer('L' + k, 0, None) for k in ('xl', 'yl', 'xh', 'yh'))
    W, H = v.integer('W', 1, 200), v.integer('H', 1, 200)

    def mk(v, n):
        im = Im(mode, (W, H), n)
        if v.symbolic and crop:
            im.box = c = tuple(v.integer(n + '.' + k, 0, None) for k in ('xl', 'yl', 'xh', 'yh'))
            v.assume(v.and_(L[0] <= c[0], L[1] <= c[1], c[2] <= L[2], c[3] <= L[3]))
        elif not v.symbolic:
            x, y = v.integer(n + '.x', 0, W - 1), v.integer(n + '.y', 0, H - 1)
            im.box = (x, y, v.integer(n + '.X', x + 1, W), v.integer(n + '.Y', y + 1, H))
        else:
            im.box = (0, 0, 1, 1)
        return im, (n, im.box)
    S = v.seq('frames', mk, 1)
    if v.symbolic and crop:
        w = v.integer('w', 0, S.n - 1)

        def contains(b):
            c = S.at(w)[1]
            return v.and_(b[0] <= c[0], b[1] <= c[1], c[2] <= b[2], c[3] <= b[3])

        def within(b):
            return v.and_(L[0] <= b[0], L[1] <= b[1], b[2] <= L[2], b[3] <= L[3])
        v.carried(tuple, lambda v, n: tuple(v.integer(n.replace(' ', '_') + '.' + c, 0, None) for c in ('xl', 'yl', 'xh', 'yh')),
                  lambda i, b: [within(b), contains(b) if w < i else True])
    dur = 2.0 if crop else v.choice('duration', [2.0, 1, 0.35])
    own = mode == 'RGB' or not crop and v.flag('own')
    calls = []
    with export(v, calls), contextlib.redirect_stdout(io.StringIO()):
        b = v.m.anim.Builder(None, None, None, duration=dur)
        b.images = S.list if own else [Im(mode, (3, 3), 'other')] * v.choice('own images', [0, 1])
        b.save_animation('out.gif', **dict({} if own else {'images': S.list}, **({} if crop else {'autocrop': False})))
        saved = [x for x in SAVED if x[0] == 'out.gif']
        v.check('saved once', len(saved) == 1 and len(calls) == 1)
        (path, first, kw), (pal,) = saved[0], calls
        v.check('all frames, looping', kw.get('save_all') is True and kw.get('loop') == 0 and kw.get('disposal') == 2)
        v.eq('time per frame', kw['duration'], v.floordiv(int(1000 * dur), S.n))
        rest = kw['append_images']

        def prepared(i, im):
            d, = im.describe()
            if mode == 'RGBA':
                v.check('RGB, on black', d[:2] == ('convert', 'RGB') and d[2][0] == 'over' and d[2][1] == (('new', 'black'),) and len(d[2][2]) == 1)
                d = d[2][2][0]
                v.check('alpha on or off', d[0] == 'alpha' and d[1][0][:2] == BINARY)
                d = d[2]
            v.check('resampled', d[0] == 'resize' and im.mode == 'RGB')
            v.eq('size', im.size, d[1])
            d = d[3]
            if crop:
                v.check('cropped', d[0] == 'crop')
                box = d[1]
                v.eq('halved', im.size, (v.floordiv(box[2] - box[0], 2), v.floordiv(box[3] - box[1], 2)))
                if v.symbolic:
                    c = S.at(w)[1]
                    v.check('box and margin', v.and_(
                        box[0] <= v.max(0, c[0] - 16), box[1] <= v.max(0, c[1] - 16),
                        box[2] >= v.min(W, c[2] + 16), box[3] >= v.min(H, c[3] + 16)))
                    v.check('no more', v.and_(
                        box[0] >= v.max(0, L[0] - 16), box[1] >= v.max(0, L[1] - 16),
                        box[2] <= v.min(W, L[2] + 16), box[3] <= v.min(H, L[3] + 16)))
                else:
                    cs = [S.at(j)[1] for j in range(S.n)]
                    v.eq('box and margin', box, (max(0, min(c[0] for c in cs) - 16), max(0, min(c[1] for c in cs) - 16),
                                                 min(W, max(c[2] for c in cs) + 16), min(H, max(c[3] for c in cs) + 16)))
                d = d[2]
            else:
                v.eq('halved', im.size, (v.floordiv(W, 2), v.floordiv(H, 2)))
            v.eq('its frame', d, S.at(i)[0])

        def mapped(i, im):
            d, = im.describe()
            v.check('with the palette', im.mode == 'P' and d[:2] == ('mapped', 'the palette'))
            v.check('transparency', im.info == {'transparency': ('pixel', (0, 0), d)})
            while isinstance(d, tuple):
                d = d[-1]
            return d
        v.each('palette of all frames', pal, S.n, prepared)
        v.eq('first frame', mapped(0, first), S.at(0)[0])
        v.each('saved in order', rest, S.n - 1, lambda i, im: v.eq('next frame', mapped(i, im), S.at(i + 1)[0]))
