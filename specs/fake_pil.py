"""Stand-in for PIL: images are values (mode, size, what is known of the content), drawing appends to a list."""
import contextlib
import PIL.Image
import PIL.ImageDraw


class Im:
    def __init__(self, mode, size, content):
        self.mode, self.size = mode, tuple(size)
        self.content = content          # immutable description
        self.ops = []                   # what was drawn on top
        self.info = {}

    def describe(self):
        return (self.content, tuple(self.ops)) if self.ops else (self.content,)

    def convert(self, mode):
        return Im(mode, self.size, ('convert', mode) + self.describe())

    def copy(self):
        im = Im(self.mode, self.size, self.content)
        im.ops = list(self.ops)
        return im

    def crop(self, box=None):
        if box is None:
            return self.copy()
        return Im(self.mode, (box[2] - box[0], box[3] - box[1]), ('crop', tuple(box)) + self.describe())

    def resize(self, size, resample=None, **kw):
        return Im(self.mode, size, ('resize', tuple(size), resample) + self.describe())

    def getbbox(self):
        return self.box

    def quantize(self, colors=256, method=None, kmeans=0, palette=None, dither=None):
        return Im('P', self.size, ('mapped', palette, dither) + self.describe())

    def getpixel(self, xy):
        return ('pixel', tuple(xy)) + self.describe()

    def split(self):
        return tuple(Im('L', self.size, ('band', m) + self.describe()) for m in self.mode)

    def getchannel(self, c):
        return Im('L', self.size, ('band', c if isinstance(c, str) else self.mode[c]) + self.describe())

    def point(self, f, mode=None):
        return Im(self.mode, self.size, ('point', tuple(f) if isinstance(f, (list, tuple)) else tuple(f(x) for x in range(256)))
                  + self.describe())

    def putalpha(self, a):
        self.content = ('alpha', a.describe() if isinstance(a, Im) else a) + self.describe()
        self.ops = []

    def load(self):
        pass

    def save(self, path, **kw):
        SAVED.append((path, self, kw))


SAVED = []


class Draw:
    def __init__(self, im, mode=None):
        self.im = im

    def line(self, xy, fill=None, width=0, joint=None):
        self.im.ops.append(('line', tuple(xy), fill, width))

    def polygon(self, xy, fill=None, outline=None, width=1):
        self.im.ops.append(('polygon', tuple(xy), fill, outline, width))


def eval_(im, f):
    return im.point(f)


def new(mode, size, color=0):
    return Im(mode, size, ('new', color))


def alpha_composite(a, b):
    assert a.mode == b.mode == 'RGBA' and a.size == b.size
    return Im('RGBA', a.size, ('over', a.describe(), b.describe()))


@contextlib.contextmanager
def fake_pil():
    I, D = PIL.Image, PIL.ImageDraw
    del SAVED[:]
    old = I.new, I.alpha_composite, D.Draw, D.ImageDraw, I.eval
    I.new, I.alpha_composite, D.Draw, D.ImageDraw, I.eval = new, alpha_composite, Draw, Draw, eval_
    try:
        yield
    finally:
        I.new, I.alpha_composite, D.Draw, D.ImageDraw, I.eval = old
